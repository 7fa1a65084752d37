#!/bin/bash
# Compiles demo.rs against the library built in /repo and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 1
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
L=""
for d in target/debug/build/*/out target/debug/build/*/out/lib target/debug/build/*/out/build; do [ -d "$d" ] && L="$L -L native=$d"; done
X=""
for c in hopper mio tempdir byteorder chrono protobuf; do
  r=$(ls -t target/debug/deps/lib$c-*.rlib 2>/dev/null | head -1)
  [ -n "$r" ] && X="$X --extern $c=$r"
done
rustc --edition 2018 -A warnings -C debuginfo=0 "$here/demo.rs" -o "$t/demo" --extern cernan=target/debug/libcernan.rlib $X \
  -L dependency=target/debug/deps $L > "$t/rustc.log" 2>&1 || { cat "$t/rustc.log"; echo "demo does not compile"; exit 3; }
export RUST_BACKTRACE=0
cd "$t" && mkdir tmp && TMPDIR="$t/tmp" timeout 120 ./demo
