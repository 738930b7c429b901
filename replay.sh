#!/bin/bash
# replay.sh REPLAY-FILE: repeats a recorded violation exactly.
F=$(readlink -f "$1")
cd "$(dirname "$0")"
P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$F")
KIND=plain
grep -qx "$P" race-properties.txt && KIND=race
grep -qx "$P" repl-properties.txt && KIND=repl
./build.sh $KIND || exit 2
exec "${VERIF_BUILD:-$PWD/.build}/$KIND/h" replay "$F"
