#!/bin/bash
# Appends demo.rs (a test module) to the source file named in its first line, in a scratch
# copy of the repository, and runs it: fails if the property does not hold there.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -a "$PWD" "$work/repo" || exit 2
cd "$work/repo" || exit 2
file=$(head -1 "$here/demo.rs" | sed 's,^// *,,')
cat "$here/demo.rs" >> "$file"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$work/repo/target"
timeout 250 cargo test --offline --lib demo_ -- --test-threads 4 > "$work/log" 2>&1
rc=$?
grep -E "^test |panicked|^error|assertion" -A2 "$work/log" | tail -40
grep -q "^running [1-9]" "$work/log" || { echo "the demonstration did not run"; tail -20 "$work/log"; exit 3; }
exit $rc
