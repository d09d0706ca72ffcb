#!/bin/bash
# trybug.sh ID CHECK...: runs checks against /repo with a planted bug applied, then undoes it.
p=/verif/seeded/$1/patch.diff; shift
git -C /repo apply "$p" || exit 3
for c in "$@"; do (cd /verif; timeout 900 ./run.sh $c --quick 2>&1 | grep -E "DETAIL|VIOL|HELD|error" | cut -c1-400); done
git -C /repo checkout -q -- .
