#!/bin/bash
# builds all variants of the harness
cd "$(dirname "$0")" || exit 2
for v in main collide flushagg; do ./build.sh $v & done
wait %1 && wait %2 && wait %3
