#!/bin/bash
# tools/trybug.sh <patch> <ID>...: applies a patch to /repo, runs the checks, reverts.
p=$(realpath "$1"); shift
git -C /repo apply "$p" || exit 9
for id in "$@"; do python3 /verif/check.py "$id" 2>/tmp/trybug.err | cut -c1-400; echo "   $id exit ${PIPESTATUS[0]}"; done
git -C /repo checkout -- .
