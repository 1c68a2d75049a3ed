#!/bin/bash
# usage: trybugs.sh [seeded id...]: applies each planted bug to a copy of /repo and runs its property's check there
cd /verif
S=${SEEDS:-/verif/seeded}
for id in ${@:-$(ls $S)}; do
  prop=$(python3 -c "import json;print(json.load(open('$S/$id/meta.json'))['property'])")
  copy=$(mktemp -d /tmp/bug-XXXXXX)
  cp -a /repo "$copy/repo"
  if git -C "$copy/repo" apply "$S/$id/patch.diff"; then
    out=$(VERIF_REPO="$copy/repo" python3 run.py "$prop" quick 2>&1); rc=$?
    printf '%-28s %s rc=%d %s\n' "$id" "$prop" "$rc" "$(echo "$out" | grep clause | cut -c1-140)"
  else echo "$id DOES NOT APPLY"; fi
  rm -rf "$copy"
done
