#!/bin/bash
# Instruments the atomic operations compiled into the dump_syms library (with the generic code
# of its dependencies that it instantiates): each becomes a call into our scheduler.
R=$1; shift
case " $* " in
*" --crate-name dump_syms "*) exec "$R" "$@" -C passes=tsan -C llvm-args=-tsan-instrument-func-entry-exit=0 -C llvm-args=-tsan-instrument-memory-accesses=0 -C llvm-args=-tsan-instrument-memintrinsics=0 ;;
*) exec "$R" "$@" ;;
esac
