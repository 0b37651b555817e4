#!/bin/bash
# replay.sh FILE [--trace]: replay a reported violation against /repo's current working tree.
f=$(realpath "$1"); shift
cd "$(dirname "$0")" || exit 3
./build.sh || exit 3
exec target/debug/simw replay "$f" "$@"
