#!/bin/bash
# trybug.sh ID CHECK...: apply seeded/ID to /repo, build, run its demo and the given checks, undo. (development aid, no check uses it)
D=/verif/seeded/$1; shift
cd /repo || exit 2
bash $D/demo.sh >/tmp/tb.demo0 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/tb.build 2>&1; echo "build: $?"
bash $D/demo.sh >/tmp/tb.demo1 2>&1; echo "demo patched: $?"
tail -3 /tmp/tb.demo1
[ -n "$FULLTEST" ] && { bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.test 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/tb.json'))
def ps(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(x[k]) if isinstance(x[k],list) else set(k2 for k2,v in x[k].items() if v in (True,'pass','passed'))
print("broken tests:", sorted(ps(b)-ps(t))[:10])
P
}
for c in "$@"; do (cd /verif; python3 checks/run.py $c 2>&1 | grep -E "VIOLATION|OK|rejected|roken|^#  " | head -8); done
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/tb.build2 2>&1
git -C /repo status --short | head -3
