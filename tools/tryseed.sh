#!/bin/bash
# tryseed.sh SEED [CHECK...]: confirm a planted bug (demo passes on the clean tree; with the patch: builds, stable tests
# pass, demo fails) and run its property's check (or the checks named) against it. Leaves /repo clean.
set -u
S=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 9; }
if [ -z "${NODEMO:-}" ]; then (cd /repo && bash "$S/demo.sh" >/tmp/demo_clean.log 2>&1); echo "demo clean: $? (want 0)"; fi
git -C /repo apply "$S/patch.diff" || { echo "patch does not apply"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "${NOTEST:-}" ]; then
 bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo BUILD FAILED; tail /tmp/sb.log; exit 9; }
 bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
 python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def g(d):
    for k in('passed','pass','stable','tests'):
        if k in d: return set(map(lambda x: x if isinstance(x,str) else x.get('id',x.get('name')),d[k]))
m=g(b)-g(o); print("tests missing:", sorted(m)[:5] if m else "none (279 ok)")
P
fi
if [ -z "${NODEMO:-}" ]; then (cd /repo && bash "$S/demo.sh" >/tmp/demo_bug.log 2>&1); echo "demo bug: $? (want nonzero)"; tail -2 /tmp/demo_bug.log; fi
for c in ${@:-$P}; do (cd /verif && ./run.sh $c quick 2>&1 | tail -4 | cut -c1-400); done
