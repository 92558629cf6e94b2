#!/bin/bash
# replay.sh <file>: rebuilds and replays one recorded failure.
cd "$(dirname "$0")" || exit 3
bash build.sh >&2 || { echo "build failed" >&2; exit 3; }
exec sim/target/release/sim replay "$1"
