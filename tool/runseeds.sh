#!/bin/bash
# runseeds.sh [ID...]: apply each planted bug to a scratch copy and run the check of its property there (VERIF_REPO)
cd "$(dirname "$0")/.."
S=${*:-$(ls seeded)}
W=$(mktemp -d /tmp/rs.XXXX)
git -C /repo archive HEAD core ext build_config.h.in swig | tar x -C $W
( cd $W; git init -q . ; git add -A; git -c user.email=a -c user.name=a commit -qm x )
for s in $S; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C $W apply "$PWD/seeded/$s/patch.diff" || { echo "$s: no apply"; continue; }
  VERIF_REPO=$W ./check $P > /tmp/rs.out 2>&1; r=$?
  echo "$s $P exit=$r $(grep -v '^KNOWN' /tmp/rs.out | head -2 | cut -c1-220 | tr '\n' ' ')"
  git -C $W checkout -q -- .
done
rm -rf "$W"
