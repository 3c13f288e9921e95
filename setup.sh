#!/bin/bash
# Builds the harness crates once, offline (each check rebuilds what changed).
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
(cd harness/standalone && CARGO_TARGET_DIR=$PWD/../../target/standalone cargo +stable build --release --offline) || exit 1
(cd harness/verify && CARGO_TARGET_DIR=$PWD/../../target/verify cargo +stable build --release --offline) || exit 1
(cd harness/db && CARGO_TARGET_DIR=$PWD/../../target/db cargo +stable build --release --offline) || exit 1
# for G15: the same code under Miri and AddressSanitizer
(cd harness/ub && MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" CARGO_TARGET_DIR=$PWD/../../target/miri cargo +nightly miri run --quiet --offline -- 0 0) || exit 1
(cd harness/ub && RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" CARGO_TARGET_DIR=$PWD/../../target/asan cargo +nightly build --quiet --release --offline --target x86_64-unknown-linux-gnu) || exit 1
exit 0
