#!/bin/bash
# tryseed.sh ID...: confirm planted bugs in scratch copies (stable tests pass, demo fails with / passes without the change)
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/seed_$id
  rm -rf "$w"; cp -a /repo "$w"; cd "$w" && git checkout -q -- . && git apply "$d/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
  export JAX_PLATFORMS=cpu PYTHONPATH=$w OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 XLA_FLAGS=--xla_cpu_multi_thread_eigen=false PYTHONHASHSEED=0
  t=$(mktemp -d)
  cp -r "$d" "$t/x"; rm -f "$t/x/patch.diff" "$t/x/meta.json"
  bash "$t/x/demo.sh" >$t/log1 2>&1; r1=$?
  (cd /repo; PYTHONPATH=/repo bash "$t/x/demo.sh" >$t/log0 2>&1); r0=$?
  if [ "$NOTEST" = "" ]; then
  /opt/venv/bin/python -m pytest -q --tb=line -n 8 -p no:cacheprovider --timeout=180 --timeout-method=thread -o junit_family=xunit2 --junitxml="$t/j.xml" tests >$t/pt 2>&1
  python3 /opt/vp/results.py $t/o.json junit:$t/j.xml >/dev/null
  miss=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('$t/o.json'))['passed']);print(sorted(b-o)[:5])")
  fi
  echo "$id demo: clean=$r0 patched=$r1 broken-tests=$miss"
  [ $r0 != 0 ] && tail -3 $t/log0
  rm -rf "$w" "$t"
done
