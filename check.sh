#!/bin/bash
# check.sh <property>: rebuilds from /repo's working tree and runs the simulation of one property.
cd "$(dirname "$0")" || exit 3
bash build.sh >&2 || { echo "build failed" >&2; exit 3; }
exec sim/target/release/sim check "$1"
