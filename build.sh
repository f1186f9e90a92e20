#!/bin/bash
# Builds the harness against /repo's current working tree.  Offline, idempotent.
cd "$(dirname "$0")/harness" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p target
exec 9>target/.build.lock
flock 9
# cargo decides by modification times; a content hash makes sure every change is seen
now=$( (cd /repo && find programs/presale merkle-tree Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
old=$(cat target/.repo-hash 2>/dev/null)
if [ -n "$old" ] && [ "$now" != "$old" ]; then
    cargo clean --release --offline -p presale -p merkle-tree >/dev/null 2>&1
fi
rm -f target/.repo-hash
if ! cargo build --release --offline --locked >target/build.log 2>&1; then
    tail -40 target/build.log >&2
    echo "harness build failed" >&2
    exit 3
fi
echo "$now" >target/.repo-hash
