#!/bin/bash
# Decides one property on /repo's working tree:  run.sh ID quick|thorough
# Runs a recorded violation again:               run.sh replay FILE
# Checks that seeds give the same executions:    run.sh selftest
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
T="$here/target"
SIM="$T/sim/release/sim"
id="${1:-}"
tier="${2:-${VERIF_TIER:-quick}}"
nodes_of() {
  case "$1" in
    C10|C12) echo def cli ;;
    *) "$SIM" nodes "$1" ;;
  esac
}
bash sim/build.sh || exit 2
case "$id" in
  selftest)
    bash sim/build.sh def perf alloc std wasm cli sdef sperf salloc || exit 2
    exec "$SIM" selftest --nodes "$T" --count 200 ;;
  replay)
    p="$(sed -n 's/^  "property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)"
    bash sim/build.sh $(nodes_of "$p") || exit 2
    exec "$SIM" replay "$2" --nodes "$T" ;;
  C*)
    bash sim/build.sh $(nodes_of "$id") || exit 2
    mkdir -p evidence replays
    exec "$SIM" run "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --nodes "$T" \
      --replays "$here/replays" --known "$here/known-findings.txt" --evidence "$here/evidence/$id.json" ;;
  *) echo "usage: run.sh ID quick|thorough | replay FILE | selftest" >&2; exit 2 ;;
esac
