#!/bin/bash
# Builds all variants of the simulator from /repo's working tree.
cd "$(dirname "$0")"
./build.sh plain && ./build.sh race && ./build.sh repl
