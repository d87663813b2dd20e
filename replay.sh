#!/bin/bash
# replay.sh FILE   re-executes the single case recorded in a replay file, output visible; exit 1 if it fails again
cd "$(dirname "$0")" || exit 3
F=$(realpath "$1"); ID=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$F")
VAR=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1])).get('variant','fast'))" "$F")
B=${MC_BUILD:-$PWD/build}; export MC_BUILD=$B
export ASAN_OPTIONS=detect_leaks=0 UBSAN_OPTIONS=print_stacktrace=1
python3 build.py "$VAR" "$ID" || exit 3
exec "$B/bin/$VAR/$ID" --replay "$F"
