#!/bin/bash
# seedcheck.sh ID...: does each planted change count, and is it caught?
# (applies, passes the stable tests, demo fails with it, check reports it)
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  s=$here/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  d=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo/. $d/
  if ! git -C $d apply $s/patch.diff; then echo "$id: patch does not apply"; rm -rf $d; continue; fi
  r="$id ($p):"
  if [ -z "$NOTESTS" ]; then
    (cd $d && PYTHONPATH=$d:/opt/vp/plugins timeout 600 $PY -m pytest -p zounds_seed -q -n 8 -p no:cacheprovider --timeout=120 -o junit_family=xunit2 --junitxml=$d/junit.xml -W ignore --tb=no zounds >/dev/null 2>&1)
    r="$r $($PY - <<P
import sys, json, subprocess
subprocess.call([sys.executable, '/opt/vp/results.py', '$d/out.json', 'junit:$d/junit.xml'], stdout=subprocess.DEVNULL)
o = json.load(open('$d/out.json'))
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
m = sorted(b - set(o['passed']))
print('tests pass;' if not m else 'TESTS FAIL %d %s;' % (len(m), m[:2]))
P
)"
  fi
  (cd /repo && timeout 300 bash $s/demo.sh >/tmp/seed.demo0 2>&1); a=$?
  mkdir -p $d/.demo; cp $s/*.py $s/demo.sh $d/.demo 2>/dev/null
  sed -i "s#/repo#$d#g" $d/.demo/*
  (cd $d && PYTHONPATH=$d timeout 300 bash $d/.demo/demo.sh >/tmp/seed.demo1 2>&1); b=$?
  r="$r demo clean=$a patched=$b;"
  (cd $here && VERIF_REPO=$d timeout 900 ./run.py $p >/tmp/seed.check 2>&1); c=$?
  if [ $c = 1 ] && grep -q "VIOLATION property=$p " /tmp/seed.check; then
    r="$r caught: $(grep -A1 VIOLATION /tmp/seed.check | tail -1 | cut -c1-150)"
  else r="$r MISSED rc=$c"; fi
  echo "$r"
  rm -rf $d
done
