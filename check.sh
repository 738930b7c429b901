#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
V=$PWD
P=$1
T=${2:-${VERIF_TIER:-quick}}
KIND=plain
grep -qx "$P" race-properties.txt && KIND=race
grep -qx "$P" repl-properties.txt && KIND=repl
./build.sh $KIND || { echo "build failed"; exit 2; }
export VERIF_DIR=$V
exec "${VERIF_BUILD:-$V/.build}/$KIND/h" check "$P" "$T"
