#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds from /repo's working tree and runs one check.
# exit 0: held; exit 1 + VIOLATION line: broken; 2: the check itself could not run.
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$TIER VERIF_DIR=$PWD CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$PWD/target
mkdir -p evidence target
LOG=target/build-$ID.log
build() { ( flock 9; "$@" ) 9>target/.lock >"$LOG" 2>&1 || { tail -40 "$LOG" >&2; echo "build failed" >&2; exit 2; }; }
case $ID in
C01|C02|C03|C04)
  export RUSTC_WRAPPER=$PWD/sched/rustc-wrap.sh CARGO_TARGET_DIR=$PWD/target/sched
  build cargo build --release --offline --manifest-path sched/Cargo.toml
  exec ./target/sched/release/sched "$ID" "$TIER" ;;
esac
case $ID in
C05|C06|C15|C16|C17|C18|C20|C21|C22)
  build cargo build --release --offline --locked --manifest-path /repo/Cargo.toml --bin dump_syms
  build gcc -O2 -fPIC -shared -o target/inject.so fault/inject.c
  build gcc -O2 -fPIC -shared -o target/seed.so fault/seed.c ;;
esac
build cargo build --release --offline --manifest-path mc/Cargo.toml
exec ./target/release/mc "$ID" "$TIER"
