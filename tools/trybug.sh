#!/bin/bash
# bash tools/trybug.sh ID...: run the check of each planted bug on a scratch copy of /repo with the bug applied
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/trybug.XXXXXX)
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git clone -q /repo "$w/repo"
  mkdir "$w/verif"
  cp -r /verif/bin /verif/harness /verif/bounds.json /verif/properties.jsonl /verif/known_findings.txt "$w/verif/"
  git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  s=$(date +%s)
  out=$(. /opt/vp/env.sh; cd "$w/verif" && bin/gosym -prop "$prop" $TRYFLAGS -root "$w/verif" -repo "$w/repo" 2>&1); rc=$?
  e=$(date +%s)
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" <<<"$out"; then echo "$id ($prop): caught in $((e-s))s"; else echo "$id ($prop): MISSED rc=$rc in $((e-s))s"; tail -5 <<<"$out"; fi
  grep -A1 "^VIOLATION" <<<"$out" | grep -v ^VIOL | head -3
  rm -rf "$w"
done
