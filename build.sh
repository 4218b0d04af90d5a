#!/bin/bash
# Builds everything the checks need from /repo's working tree: the simulator shim, the CLI and
# the library driver (both instrumented and linked against the shim), and the harness.
# Usage: build.sh [all|cli|driver|harness]     VH_REPO: the tree to build (default /repo)
set -e
V=$(cd "$(dirname "$0")" && pwd)
export VH_REPO=${VH_REPO:-/repo}
B=${VH_BUILD:-$V/build}
mkdir -p "$B/shim"
exec 9>"$B/.lock"; flock 9
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER

SO="$B/shim/libvshim.so"
want=$(cat "$V/shim/vshim.c" "$V/shim/vshim.h" | sha256sum | cut -c1-32)
if [ ! -f "$SO" ] || [ "$(cat "$SO.stamp" 2>/dev/null)" != "$want" ]; then
  gcc -O2 -g -Wall -Wextra -shared -fPIC -fvisibility=hidden -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-builtin -fno-delete-null-pointer-checks -Wno-nonnull-compare \
    -o "$SO.tmp" "$V/shim/vshim.c" -ldl -lpthread
  mv "$SO.tmp" "$SO"; echo "$want" > "$SO.stamp"
fi

if [ ! -f "$B/harness.stamp" ] || [ "$(cat "$B/harness.stamp")" != "$(cd "$V/harness" && cat Cargo.toml src/*.rs | sha256sum | cut -c1-32)" ]; then
  (cd "$V/harness" && cargo build --release --offline --quiet --target-dir "$B/htarget")
  (cd "$V/harness" && cat Cargo.toml src/*.rs | sha256sum | cut -c1-32) > "$B/harness.stamp"
fi
[ "$1" = harness ] && exit 0

export RUSTFLAGS="-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C link-arg=-L$B/shim -C link-arg=-lvshim -C link-arg=-Wl,-rpath,$B/shim"
T=x86_64-unknown-linux-gnu
# content of the tree under test, not its timestamps, decides whether it is built again
want=$(cd "$VH_REPO" && { echo "$B"; find . \( -path ./target -o -path ./.git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.schema.json' -o -path './src/*' \) -print0 | sort -z | xargs -0 sha256sum; cat "$V"/driver/Cargo.toml "$V"/driver/src/*; rustc --version; } | sha256sum | cut -c1-32)
# build_one NAME DIR TARGETDIR BINARY: one cargo build, skipped when the content is the same
build_one() {
  local name=$1 dir=$2 tgt=$B/$3 bin=$4
  [ "$(cat "$B/$name.stamp" 2>/dev/null)" = "$want" ] && [ -x "$tgt/$T/release/$bin" ] && return 0
  rm -f "$B/$name.stamp"
  rm -rf "$tgt/$T/release/.fingerprint"/{midi2spc,vdriver}-* "$tgt/$T/release/$bin"
  (cd "$dir" && cargo build --release --offline --locked --quiet --target $T --target-dir "$tgt" 2>"$B/$name.log") || { cat "$B/$name.log" >&2; return 3; }
  echo "$want" > "$B/$name.stamp"
}
if [ "$1" != cli ] && [ "$(cat "$B/driver/stamp" 2>/dev/null)" != "$want" ]; then
  rm -rf "$B/driver"; mkdir -p "$B/driver"
  cp -r "$V/driver/src" "$B/driver/"
  sed "s#@REPO@#$VH_REPO#" "$V/driver/Cargo.toml" > "$B/driver/Cargo.toml"
  cp "$VH_REPO/Cargo.lock" "$B/driver/Cargo.lock"
  (cd "$B/driver" && cargo metadata --offline --format-version 1 >/dev/null 2>"$B/driver.log") || { cat "$B/driver.log" >&2; exit 3; }
  echo "$want" > "$B/driver/stamp"
fi
# every tree in two builds: release, and with the overflow checks and debug assertions of `cargo build`
pids=()
build_one cli "$VH_REPO" target midi2spc & pids+=($!)
(export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true; build_one clichk "$VH_REPO" chktarget midi2spc) & pids+=($!)
if [ "$1" != cli ]; then
  build_one driver "$B/driver" drvtarget vdriver & pids+=($!)
  (export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true; build_one driverchk "$B/driver" drvchktarget vdriver) & pids+=($!)
fi
r=0
for p in "${pids[@]}"; do wait "$p" || r=3; done
exit $r
