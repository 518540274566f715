#!/bin/bash
# Builds the engine and, from /repo's working tree, the harness: its bitcode (work/h.ll) and its
# native binary for replays (work/h).  Output directory: $1 (default /verif/work)
set -e
V=$(cd "$(dirname "$0")" && pwd)
W=${1:-$V/work}
mkdir -p "$W"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL DATABASE_URL
# what is built is a function of these files; nothing is rebuilt when none of them changed
STAMP=$( (cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; cd "$V" && find engine harness build.sh -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-40)
if [ -f "$W/stamp" ] && [ "$(cat "$W/stamp")" = "$STAMP" ] && [ -x "$W/h" ] && [ -x "$W/llsym" ] && [ -f "$W/h.ll" ]; then exit 0; fi
rm -rf "$W/stamp"
SYS=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
(cd "$V/engine" && cargo build -q --release --offline --target-dir "$W/engine-target" && cp "$W/engine-target/release/llsym" "$W/llsym") &
P1=$!
gcc -O1 -c "$V/harness/c/rt_native.c" -o "$W/rt_native.o"
export CXXFLAGS="-DVP_SOURCE_HASH=h$(find /repo/clickhouse-rs-cityhash-sys/src/cc -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)"
cd "$V/harness"
rm -rf "$W"/target/release/deps/h-* "$W"/target/release/.fingerprint/h-* "$W"/target/release/.fingerprint/clickhouse-rs-* "$W"/target/release/build/clickhouse-rs-*
RUSTFLAGS="--cfg clickhouse_verif -Awarnings" cargo rustc -q --offline --release --target-dir "$W/target" -- -C save-temps --emit=llvm-bc,link -C link-arg="$W/rt_native.o"
cp "$W/target/release/h" "$W/h"
BC=$(ls "$W"/target/release/deps/h-*.bc | grep -v -e '\.rcgu\.' -e no-opt -e lto | head -1)
LZ4=$(ls -d /root/.cargo/registry/src/*/lz4-sys-*/liblz4/lib | head -1)
CL="clang-18 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -emit-llvm -c -w"
command -v clang-18 >/dev/null || CL="clang -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -emit-llvm -c -w"
$CL -x c++ -fno-exceptions -fno-rtti /repo/clickhouse-rs-cityhash-sys/src/cc/city.cc -o "$W/city.bc"
$CL -DLZ4_FORCE_MEMORY_ACCESS=0 -DLZ4_FREESTANDING=0 "$LZ4/lz4.c" -o "$W/lz4.bc"
$CL "$V/harness/c/lz4_model.c" -o "$W/lz4m.bc"
"$SYS/llvm-link" "$BC" "$W/city.bc" "$W/lz4.bc" "$W/lz4m.bc" -o "$W/all.bc"
"$SYS/opt" --strip-debug -passes=globaldce "$W/all.bc" -S -o "$W/h.ll.tmp"
mv "$W/h.ll.tmp" "$W/h.ll"
rm -f "$W"/target/release/deps/h-*.rcgu.* "$W"/target/release/deps/*.no-opt.bc
wait $P1
echo "$STAMP" > "$W/stamp"
