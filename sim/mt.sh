#!/bin/sh
# developer: minimise and trace: mt.sh FAMILY SEED [budget] [lines]
cd "$(dirname "$0")"
target/debug/simw min $1 $2 ${3:-20} | grep -v '^dec preempt\|^dec resume' 
target/debug/simw replay /verif/replays/dev-$1-$2.txt --trace | tail -${4:-45} | cut -c1-220
