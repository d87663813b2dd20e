#!/bin/bash
# run.sh ID [quick|thorough] [variant]   builds and runs one check; see DESIGN.md
cd "$(dirname "$0")" || exit 3
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; VAR=${3:-fast}
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1 UBSAN_OPTIONS=print_stacktrace=0
B=${MC_BUILD:-$PWD/build}; export MC_BUILD=$B
python3 build.py "$VAR" "$ID" || exit 3
mkdir -p evidence "$B/run"
exec "$B/bin/$VAR/$ID" --tier "$TIER" --variant "$VAR" --evidence "evidence/$ID.json" --outdir "$B/run" --known known_findings.jsonl
