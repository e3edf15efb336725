#!/bin/bash
# Development tool: trybug.sh ID [PROP...] applies a planted bug to /repo, confirms that it builds, passes the stable tests and fails
# its demonstration, runs the checks of its property (and PROP...), and undoes it. Nothing registered in MANIFEST.json uses it.
here="$(cd "$(dirname "$0")/.." && pwd)"; id=$1; shift; d=$here/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
if [ -z "$NODEMO" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/demo.out 2>&1 || { echo "$id: demo FAILS on the clean tree"; tail -5 /tmp/demo.out; }; fi
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "$id: BUILD FAILS"; tail -20 /tmp/build.out; exit 2; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/test.sh /tmp/test.json >/dev/null 2>&1
python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/test.json'))
s=b.get('stable',b.get('passed',b)); p=set(t.get('passed',t)) 
miss=[x for x in s if x not in p]
print(sys.argv[1], 'tests ok' if not miss else f'TESTS FAIL {miss[:5]}')
P
timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1 && echo "$id: demo PASSES with the patch" || echo "$id: demo fails as it should: $(tail -1 /tmp/demo.out | cut -c1-150)"
fi
for p in $prop "$@"; do for seed in ${SEEDS:-1}; do
  VERIF_SEED=$seed $here/run.sh $p >/tmp/check.out 2>&1; st=$?
  if [ $st = 1 ] && grep -q "^VIOLATION property=$p" /tmp/check.out; then echo "$id: CAUGHT by $p (seed $seed): $(grep -m1 -E '^ +\[' /tmp/check.out | cut -c1-200)"; else echo "$id: MISSED by $p (seed $seed, exit $st) $(tail -1 /tmp/check.out | cut -c1-120)"; fi
done; done
