#!/bin/bash
# mkbug.sh <id> : make seeded/<id>/patch.diff from the edits in /tmp/sc/repo, then reset them
set -e
id="$1"; test -n "$id"
mkdir -p "/verif/seeded/$id"
git -C /tmp/sc/repo diff > "/verif/seeded/$id/patch.diff"
git -C /tmp/sc/repo checkout -q -- .
test -s "/verif/seeded/$id/patch.diff"
