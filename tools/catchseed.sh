#!/bin/bash
# catchseed.sh ID [PROPERTY...]: runs the checks of the planted bug's property against a copy of /repo with the bug
id=$1; shift; d=/verif/seeded/$id; w=/tmp/seedcatch.$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
rm -rf "$w"; cp -a /repo "$w"; git -C "$w" checkout -q -- .; git -C "$w" apply "$d/patch.diff" || exit 1
for p in $props; do
  s=$(date +%s)
  VERIF_REPO=$w /verif/check.sh $p quick > /tmp/seedcatch.$id.$p.out 2>&1; rc=$?
  echo "$id: $p rc=$rc $(( $(date +%s)-s ))s $(grep '^found' /tmp/seedcatch.$id.$p.out | head -1 | cut -c1-150)"
done
rm -rf "$w"
