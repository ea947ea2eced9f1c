#!/bin/bash
# Builds the simulator and the nodes it needs from /repo's working tree.
# usage: build.sh NODE...     (def perf alloc std wasm cli sdef sperf salloc)
set -u
here="$(cd "$(dirname "$0")" && pwd)"
T="${SIM_TARGET:-$here/../target}"
mkdir -p "$T/log"
T="$(cd "$T" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
pids=(); names=()
start() { # name dir args...
  local n="$1" d="$2"; shift 2
  ( cd "$d" && CARGO_TARGET_DIR="$T/$n" cargo build --offline --release "$@" ) >"$T/log/$n.log" 2>&1 &
  pids+=($!); names+=("$n")
}
# a build that counts its steps (node/src/steps.rs)
steps() {
  local n="$1"; shift
  ( cd "$here/node" && RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc" \
      CARGO_PROFILE_RELEASE_LTO=fat CARGO_PROFILE_RELEASE_DEBUG=0 CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_TARGET_DIR="$T/$n" \
      cargo build --offline --release --target x86_64-unknown-linux-gnu "$@" &&
    mkdir -p "$T/$n/release" && cp "$T/$n/x86_64-unknown-linux-gnu/release/libnode.so" "$T/$n/release/libnode.so" ) >"$T/log/$n.log" 2>&1 &
  pids+=($!); names+=("$n")
}
start sim "$here/sim"
for n in "$@"; do
  case "$n" in
    def)   start def "$here/node" --features json ;;
    perf)  start perf "$here/node" --features json,direct,perf,alloc ;;
    alloc) start alloc "$here/node" --features alloc ;;
    sdef)  steps sdef --features json,steps ;;
    sperf) steps sperf --features json,direct,perf,alloc,steps ;;
    salloc) steps salloc --features alloc,steps ;;
    std)   start std "$here/node" --features std ;;
    wasm)  start wasm "$here/wnode" ;;
    cli)
      start cli /repo --locked -p toon-cli
      mkdir -p "$T/shim"
      gcc -O1 -shared -fPIC -o "$T/shim/simio.so" "$here/shim/simio.c" >"$T/log/shim.log" 2>&1 || { cat "$T/log/shim.log" >&2; exit 1; } ;;
    *) echo "unknown node $n" >&2; exit 2 ;;
  esac
done
bad=0
for i in "${!pids[@]}"; do
  if ! wait "${pids[$i]}"; then
    echo "building ${names[$i]} failed:" >&2
    tail -40 "$T/log/${names[$i]}.log" >&2
    bad=1
  fi
done
exit $bad
