#!/bin/bash
# usage: try_seeded.sh [ID ...]: runs the check of each planted bug's property against it (scratch copy of /repo)
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t=$(mktemp -d /tmp/tryXXXX); cp -a /repo "$t/repo"
  git -C "$t/repo" apply "$PWD/seeded/$id/patch.diff" || echo "$id: does not apply"
  s=$(date +%s)
  CVI_REPO="$t/repo" python3 check.py ${PROP:-$prop} quick > "$t/out" 2>&1; rc=$?
  e=$(date +%s)
  echo "$id ${PROP:-$prop} rc=$rc $((e-s))s $(grep -c '^VIOLATION' "$t/out") $(grep -v '^VIOLATION' "$t/out" | tail -${LINES_OUT:-1} | cut -c1-220)"
  rm -rf "$t"
done
