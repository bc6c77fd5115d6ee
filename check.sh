#!/bin/bash
# check.sh <ID>: rebuild from /repo's working tree, then decide the property. Exit 0, or 1 with a VIOLATION line.
cd "$(dirname "$0")" || exit 3
export VP_DIR="$PWD"
case $1 in C23|C25|C30) what="harness cli" ;; *) what="harness" ;; esac
./build.sh $what || exit 3
exec harness/target/release/vp-harness run "$1"
