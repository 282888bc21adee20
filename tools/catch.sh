#!/bin/bash
# catch.sh BUG [CHECK...]: run checks (default: its property's) against a scratch copy of /repo with a planted bug.
bug=$1; shift
dir=/verif/seeded/$bug
checks=${*:-$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")}
cd /verif
tmp=$(mktemp -d /tmp/catch-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir $tmp/repo; cp -a /repo/shellous /repo/.git $tmp/repo/
git -C $tmp/repo apply $dir/patch.diff || exit 2
for c in $checks; do
  SHELLOUS_REPO=$tmp/repo PYTHONPATH=$tmp/repo ./check $c ${TIER:-quick} > $tmp/out 2>&1; rc=$?
  echo "$bug $c rc=$rc $(grep -c VIOLATION $tmp/out) violations; $(tail -1 $tmp/out | cut -c1-250)"
  grep -v VIOLATION $tmp/out | head -${SHOW:-2} | cut -c1-300
done
