#!/bin/bash
# tools/seed.sh ID [props...]: apply a planted change to /repo, build, run the
# stable tests, the demonstration and the checks, and undo it.  NOTEST=1 skips
# the tests.
set -u
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# -gt 0 ] || set -- $prop
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
if [ "${NOCLEAN:-0}" = 0 ]; then bash $d/demo.sh >/tmp/seed.demo0 2>&1; echo "$id demo clean: $?"; fi
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- . ; K2_NATIVE_ONLY=1 bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
if ! K2_NATIVE_ONLY=1 bash /opt/vp/build.sh >/tmp/seed.build 2>&1; then echo "$id BUILD FAILED"; tail -5 /tmp/seed.build; exit 2; fi
bash $d/demo.sh >/tmp/seed.demo1 2>&1; echo "$id demo patched: $?"
if [ "${NOTEST:-0}" = 0 ]; then
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
st=b.get('stable') or b.get('passed') or b
passed=set(o.get('passed',[])) if isinstance(o,dict) else set()
st=set(st if isinstance(st,list) else st.keys())
print('stable tests now failing:', sorted(st-passed)[:5], len(passed))
P
fi
for p in "$@"; do bash /verif/run.sh $p quick >/tmp/seed.$p 2>&1; echo "$id $p exit $? $(grep -c VIOLATION /tmp/seed.$p) violations; $(grep -m1 -B0 VIOLATION /tmp/seed.$p)"; done
