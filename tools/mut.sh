#!/bin/bash
# tools/mut.sh PATCH PROPERTY [check.py options]: run a check against a scratch copy of /repo with PATCH applied
set -e
P=$(realpath "$1"); shift
M=/tmp/mut-$$
mkdir -p $M
git -C /repo archive HEAD | tar x -C $M
(cd $M && git init -q . 2>/dev/null && git apply "$P")
set +e
cd /verif
VERIF_REPO=$M VERIF_BUILD=${MB:-/tmp/mutbuild} timeout 900 python3-vt check.py "$@"
rc=$?
find "$M" -delete
echo "rc=$rc"
