#!/bin/bash
# build.sh plain|race|repl: builds the simulator from /repo's working tree.
set -e
cd "$(dirname "$0")"
V=$PWD
REPO=${VERIF_REPO:-/repo}
KIND=${1:-plain}
OUT=${VERIF_BUILD:-$V/.build}
mkdir -p "$OUT/$KIND"
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on CGO_ENABLED=1
exec 9>"$OUT/lock.$KIND"
flock 9
(cd tools/simbuild && go build -o "$OUT/$KIND/simbuild" .)
R=
[ "$KIND" = race ] && R=-race
[ "$KIND" = repl ] && R=-repl
"$OUT/$KIND/simbuild" -repo "$REPO" -verif "$V" -out "$OUT/$KIND" $R -bin "$OUT/$KIND/h"
