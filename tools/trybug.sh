#!/bin/bash
# trybug.sh ID [props...]: apply a planted bug to /repo, build, run the stable tests, its demo and the checks; undo. Not used by any check.
id=$1; shift; cd /verif
B=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])"); [ $# -gt 0 ] && PR="$*" || PR=$P
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
(cd /repo && bash $B/demo.sh >/tmp/demo0.out 2>&1); d0=$?
git -C /repo apply $B/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || echo BUILD FAILED
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 - <<'Q'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json')); p=set(t.get('passed') or [k for k,v in t.items() if v=='passed'])
print('stable tests broken:', sorted(b-p))
Q
fi
(cd /repo && bash $B/demo.sh >/tmp/demo1.out 2>&1); d1=$?
echo "$id ($P): demo unchanged $d0, patched $d1"; [ $d0 = 0 ] || tail -3 /tmp/demo0.out; [ $d1 = 0 ] || tail -2 /tmp/demo1.out
for c in $PR; do VERIF_SEED=1 timeout 900 python3-vt pbt/check.py $c --tier quick >/tmp/chk.out 2>&1; echo "  check $c -> exit $?"; grep -a VIOLATION /tmp/chk.out | head -2; tail -3 /tmp/chk.out | cut -c1-300; done
rm -f /verif/replays/*
