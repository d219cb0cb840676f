#!/bin/bash
# Builds everything the checks use (each check rebuilds what changed).
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/target
cargo build --release --offline --manifest-path mc/Cargo.toml || exit 1
cargo build --release --offline --locked --manifest-path /repo/Cargo.toml --bin dump_syms || exit 1
gcc -O2 -fPIC -shared -o target/inject.so fault/inject.c || exit 1
gcc -O2 -fPIC -shared -o target/seed.so fault/seed.c || exit 1
RUSTC_WRAPPER=$PWD/sched/rustc-wrap.sh CARGO_TARGET_DIR=$PWD/target/sched \
  cargo build --release --offline --manifest-path sched/Cargo.toml
