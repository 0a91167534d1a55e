#!/bin/bash
# trybug.sh <seeded id> [check...]: confirms a planted change (tests, demonstration) and runs the
# checks against it; /repo is as before afterwards.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
d=$PWD/seeded/$id
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
checks=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/trybug.log 2>&1 || { echo "clean build fails"; exit 1; }
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo.log 2>&1); echo "demo clean: $?"; tail -3 /tmp/demo.log
fi
git -C /repo apply "$d/patch.diff" || exit 1
if [ -z "$NODEMO" ]; then
if bash /opt/vp/build.sh >/tmp/trybug.log 2>&1; then
    bash /opt/vp/test.sh /tmp/trybug.json >/dev/null 2>&1
    python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/trybug.json'));p=set(t['passed'])
print('tests missing:',[x for x in b['stable'] if x not in p])
P
    (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo.log 2>&1); echo "demo patched: $?"; tail -3 /tmp/demo.log
else
    echo "patched build fails"; grep -A8 -m3 '^error' /tmp/trybug.log
fi
fi
for c in $checks; do ./check.sh "$c" >/tmp/trycheck.log 2>&1; echo "check $c: $?"; grep -m1 VIOLATION /tmp/trycheck.log; grep -m1 -i 'reason\|what:' /tmp/trycheck.log; done
git -C /repo checkout -q -- .
