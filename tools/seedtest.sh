#!/bin/bash
# seedtest.sh ID...: confirm a planted bug (demo ok / fails) and run the
# property's check against it, all in a scratch copy of /repo.  (That it
# builds and passes the stable tests is checked by vcheck.)
w=$(mktemp -d /tmp/seedtest.XXXX)
trap 'find "$w" -delete' EXIT
cp -a /repo "$w/repo"
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd "$w/repo" || exit 1
  git checkout -q -- .
  bash "$d/demo.sh" >$w/out 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash "$d/demo.sh" >$w/out2 2>&1; b=$?
  (cd /verif && TRAJOPT_REPO="$w/repo" timeout 900 python3-vt check.py $p >$w/check 2>&1); c=$?
  echo "$id $p demo-unchanged=$a demo-patched=$b check-exit=$c $(grep -o 'VIOLATION.*' $w/check | sed 's/replay=[^ ]*//')"
  [ $a != 0 ] && tail -5 $w/out
  [ $c = 1 ] || tail -5 $w/check
done
