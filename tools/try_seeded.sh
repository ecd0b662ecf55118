#!/bin/bash
# usage: try_seeded.sh [ID ...]   runs the check of each planted bug's property against a scratch copy
# of /repo with the bug applied; prints caught / MISSED.
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  d=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$d/repo"
  if ! git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$d"; continue; fi
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  VERIF_REPO="$d/repo" VERIF_OUT="$d/out" VERIF_SEED=${VERIF_SEED:-1} bash check.sh "$p" quick > "$d/log" 2>&1
  if grep -q "^VIOLATION property=$p " "$d/log"; then echo "$id: caught by $p"; else echo "$id: MISSED by $p"; fi
  rm -rf "$d"
done
