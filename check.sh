#!/bin/bash
# check.sh PROPERTY quick|thorough: build the simulator and /repo's current tree, then search.
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 3
./build_app.sh || exit 3
exec target/sim/release/pzrun check "$1" "$2" ${3:+"$3"} ${4:+"$4"}
