#!/bin/bash
# run.sh <property> [--thorough] [options]: build the check from /repo's
# current tree and run it.
cd "$(dirname "$0")" || exit 2
id=$1; shift
if ! out=$(mc/build.sh "$id" 2>&1); then echo "$out" | tail -40 >&2; echo "BUILD FAILED for $id" >&2; exit 2; fi
exec build/$id "$@"
