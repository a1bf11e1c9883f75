#!/bin/bash
# for every planted change: does the check of its property report it? (scratch copies only)
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/seeded.XXXXXX)
one() {
  id=$1; d=$T/$id
  git -C /repo worktree list >/dev/null
  mkdir -p $d && git -C /repo archive HEAD | tar -x -C $d
  (cd $d && git init -q . && git apply $V/seeded/$id/patch.diff) || { echo "NOAPPLY $id"; return; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  out=$(VERIF_REPO=$d python3 $V/check.py --property $p 2>&1); rc=$?
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p"; then echo "caught $p $id"; else echo "MISSED $p $id rc=$rc $(echo "$out" | grep -v held | cut -c1-300 | head -3)"; fi
}
export -f one; export V T
ls ${SEED:-$V/seeded} | xargs -P 8 -I{} bash -c 'one {}' | sort
rm -rf "$T"
