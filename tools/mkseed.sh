#!/bin/bash
# mkseed.sh DIR: (re)copies the demonstration kit into a seeded bug's folder.
set -e
v=$(cd "$(dirname "$0")/.." && pwd); d=$1
mkdir -p "$d"
cp "$v"/tools/demokit/kit.rs "$v"/tools/demokit/demo.sh "$d/"
cp "$v"/harness/src/{rt,world,model,exec}.rs "$d/"
sed -i 's#include_bytes!("../fixtures/transfer_hook_counter.so")#include_bytes!("/repo/programs/presale/tests/fixtures/abcSyangMHdGzUGKhBhKoQzSFdJKUdkPGf5cbXVHpEw.so")#' "$d/world.rs"
