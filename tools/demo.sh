#!/bin/bash
# Compiles the demonstration beside this script as a test module of a scratch copy of the crate and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -a . "$t/c" || exit 2
cp "$here/demo.rs" "$t/c/src/seeded_demo.rs"
printf '\n#[cfg(test)]\nmod seeded_demo;\n' >> "$t/c/src/lib.rs"
cd "$t/c" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR
timeout 280 cargo test --release --lib --offline seeded_demo:: -- --test-threads 4 > "$t/log" 2>&1
r=$?
tail -15 "$t/log"
grep -q 'test result: ok. [1-9]' "$t/log" || exit 1
exit $r
