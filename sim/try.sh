#!/bin/sh
# developer summary: try.sh N BASE FAMILIES...
cd "$(dirname "$0")"; ./build.sh 2>&1 | grep ^error -A7
N=$1; B=$2; shift 2
for f in "$@"; do echo "== $f"; timeout 600 target/debug/simw batch $f $N $B | grep -v '^faults' | cut -c1-520; done
