#!/bin/bash
# run in a scratch clone with an edited tree: mkseed.sh ID -> seeded/ID/patch.diff, tree restored
mkdir -p /verif/seeded/$1
git diff > /verif/seeded/$1/patch.diff
git checkout -q -- .
