#!/bin/bash
# tryseed.sh ID...: demo on the unchanged tree; then with the patch: build, tests, demo, the property's check
cd /verif
for id in "$@"; do
  s=seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  if [ -z "$SKIPDEMO" ]; then bash $s/demo.sh >/tmp/w/d0.log 2>&1; d0=$?; else d0=-; fi
  git -C /repo apply /verif/$s/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$SKIPTEST" ]; then
  bash /opt/vp/build.sh >/tmp/w/b.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/t.log 2>&1
  t=$(python3 -c "import json;d=json.load(open('/tmp/w/t.json'));print(len(d['passed']),'passed',d['failed'])"); else b=-; t=-; fi
  if [ -z "$SKIPDEMO" ]; then bash $s/demo.sh >/tmp/w/d1.log 2>&1; d1=$?; else d1=-; fi
  timeout 900 python3 lib/check.py ${CHECK:-$prop} quick >/tmp/w/c-$id.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id $prop: demo0=$d0 build=$b tests=[$t] demo1=$d1 check=$c $(grep -m1 VIOLATION /tmp/w/c-$id.log)"
done
