#!/bin/sh
# usage: t.sh fn,args...  [opts]
cd /verif
cargo build --release --offline -q --manifest-path engine/Cargo.toml --target-dir .build/engine 2>&1 | grep -E "^error" -A8
O=$1; shift
NOBUILD=1 timeout ${TO:-600} sh run.sh check ${P:-T01} quick --cexcap 0 --only $O "$@"
