#!/bin/bash
# catch.sh ID...: run the owning check against planted bugs, in scratch copies of /repo and /verif
v=/tmp/catch_verif; rm -rf "$v"; cp -a /verif "$v"; rm -rf "$v/seeded"
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  w=/tmp/catch_repo_$id; rm -rf "$w"; cp -a /repo "$w"
  (cd "$w" && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff) || { echo "$id apply failed"; continue; }
  t0=$(date +%s); JAXVC_REPO=$w PYTHONPATH=$w "$v/check.sh" $p --tier quick > /tmp/catch_$id.log 2>&1; rc=$?
  n=$(grep -c "^VIOLATION property=$p" /tmp/catch_$id.log); m=$(grep -c "no-failing-input" /tmp/catch_$id.log)
  echo "$id $p rc=$rc violations=$n (no input: $m) $(( $(date +%s)-t0 )) s"
  rm -rf "$w"
done
rm -rf "$v"
