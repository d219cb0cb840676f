#!/bin/bash
# try.sh PROP...: with the current dirty /repo: build, tests, checks
bash /verif/tools/tst.sh
cd /verif; for p in "$@"; do bash check.sh $p quick 2>&1 | cut -c1-700 | grep -v "^\[C" | tail -4; done
