#!/bin/bash
# runseeded.sh [ID...]: the check of its property against each planted bug, on a scratch copy of /repo
cd "$(dirname "$0")/.." || exit 1
for d in ${@:-$(ls seeded)}; do
  w=$(mktemp -d /tmp/seed_XXXX); cp -a "${SEED_REPO:-/repo}" "$w/repo"
  git -C "$w/repo" apply "$PWD/seeded/$d/patch.diff" || echo "patch fails"
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  SX_REPO="$w/repo" /opt/venv/bin/python check.py "$p" > "$w/out" 2>&1; rc=$?
  echo "$d $p rc=$rc $(grep -c VIOLATION "$w/out") $(grep -m1 '^  C' "$w/out" | cut -c1-150) $(grep -c UNDECIDED "$w/out")u"
  rm -rf "$w"
done
