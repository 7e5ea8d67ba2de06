#!/bin/bash
# tryseed.sh ID...: confirms planted bugs (builds, passes the tests, demonstration differs) and runs the check of
# their property against them.  Works on /repo itself and restores it.
V=$(cd "$(dirname "$0")/.." && pwd)
R=/repo
for id in "$@"; do
  d=$V/seeded/$id
  [ -z "$(git -C $R status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 1; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r="$id ($prop):"
  if [ -z "$SKIPBASE" ]; then
    bash /opt/vp/build.sh >/tmp/ts.build 2>&1
    (cd $R && timeout 300 bash $d/demo.sh >/tmp/ts.demo0 2>&1); r="$r demo-clean=$?"
  fi
  git -C $R apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/ts.build 2>&1; then r="$r build=ok"; else r="$r build=FAIL"; fi
  bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1
  r="$r tests=$(python3 - <<P
import json
a=json.load(open('/tmp/ts.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def ps(x):
    for k in ('passed','stable','pass'):
        if k in x: return set(x[k])
    return {t for t,v in x.get('tests',x).items() if v in ('pass','PASS',True,'passed')}
m=ps(b)-ps(a); print('ok' if not m else 'FAIL:%s'%sorted(m))
P
)"
  (cd $R && timeout 300 bash $d/demo.sh >/tmp/ts.demo1 2>&1); r="$r demo-patched=$?"
  if [ -z "$NOCHECK" ]; then
    (cd $V && python3 engine/check.py $prop >/tmp/ts.check 2>&1); r="$r check=$?"
  fi
  git -C $R checkout -- .
  echo "$r"
  [ -n "$NOCHECK" ] || grep -v "^ " /tmp/ts.check | cut -c1-220 | head -${LINES_:-3}
done
bash /opt/vp/build.sh >/tmp/ts.build 2>&1
