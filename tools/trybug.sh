#!/bin/bash
# trybug.sh ID [-n]: validate a planted bug (applies, builds, tests pass, demo) and run its property's check against it
ID=$1; B=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
export PYTHONDONTWRITEBYTECODE=1
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 3; }
bash $B/demo.sh >/tmp/demo0.txt 2>&1; d0=$?
git apply $B/patch.diff || exit 3
if [ "$2" != -n ]; then bash /opt/vp/build.sh >/tmp/b.txt 2>&1; echo build $?; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    for k in ("stable","passed","pass","tests"):
        if k in x: return x[k] if isinstance(x[k],list) else [n for n,v in x[k].items() if v in (True,'passed','pass')]
    print(x.keys())
bs,ts=set(names(b)),set(names(t)); print("baseline",len(bs),"missing",sorted(bs-ts)[:5])
P
fi
bash $B/demo.sh >/tmp/demo1.txt 2>&1; d1=$?
echo "demo clean=$d0 bug=$d1"; [ $d0 = 0 ] || tail -5 /tmp/demo0.txt
cd /verif; timeout 900 ./run.sh $P > /tmp/chk.txt 2>&1; echo "check $P exit $?"; grep -E "VIOLATION|KNOWN" /tmp/chk.txt | head; tail -2 /tmp/chk.txt
git -C /repo checkout -- . ; find /repo -name '*.vcd' -o -name '*.gtkw' | head
