#!/bin/bash
# Builds the demonstration against the library /opt/vp/build.sh has just built and runs it.
here=$(cd "$(dirname "$0")" && pwd)
cd /repo || exit 99
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
D=/repo/target/debug/deps
ext() { ls -t $D/lib$1-*.rlib $D/lib$1.rlib 2>/dev/null | head -1; }
args=()
for c in presale merkle_tree litesvm anchor_lang anchor_spl serde ruint solana_program solana_sdk solana_program_runtime solana_timings solana_transaction_context solana_compute_budget; do
    args+=(--extern "$c=$(ext $c)")
done
mkdir "$tmp/src" && cp "$here"/*.rs "$tmp/src/" || exit 99
if ! rustc --edition 2021 --crate-name demo -Awarnings -Cdebuginfo=0 -L "dependency=$D" "${args[@]}" -o "$tmp/demo" "$tmp/src/main.rs" >"$tmp/log" 2>&1; then
    tail -40 "$tmp/log" >&2
    echo "demo does not compile" >&2
    exit 99
fi
"$tmp/demo"
