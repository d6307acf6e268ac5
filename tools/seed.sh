#!/bin/bash
# seed.sh ID [SEEDS]: confirm the planted change seeded/ID on /repo itself (it is
# undone afterwards): it applies, builds, passes the stable tests, changes lines
# of the original repository, its demo tells it, and the check of its property
# reports it.
id=$1; V=/verif; S=$V/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
base=c023727
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
undo() { git -C /repo checkout -q -- . ; }
trap undo EXIT
[ -n "$NODEMO" ] || { (cd /repo && timeout 300 bash $S/demo.sh >/tmp/seed.$id.clean 2>&1); r=$?; echo "demo clean: $r (want 0)"; [ $r = 0 ] || tail -5 /tmp/seed.$id.clean; }
git -C /repo apply $S/patch.diff || { echo "does not apply"; exit 1; }
python3 - <<PY
import subprocess,re
d=subprocess.run(['git','-C','/repo','diff','-U0'],capture_output=True,text=True).stdout
f=None;orig=mine=0
for l in d.split('\n'):
    if l.startswith('--- a/'): f=l[6:]
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        s=int(m[1]);n=int(m[2] or 1)
        if n==0: continue
        b=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{s},{s+n-1}','HEAD','--',f],capture_output=True,text=True).stdout
        for x in b.split('\n'):
            if x.startswith('^') or x.startswith('$base'): orig+=1
            elif x: mine+=1
print('changed lines of the original:',orig,'of mine:',mine)
PY
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || { echo "build fails"; tail -5 /tmp/seed.$id.build; exit 1; }
bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.$id.json'))
print('stable tests missing:',set(b['stable'])-set(o['passed']))"
fi
[ -n "$NODEMO" ] || { (cd /repo && timeout 300 bash $S/demo.sh >/tmp/seed.$id.demo 2>&1); echo "demo patched: $? (want nonzero)"; }
for s in ${2:-1}; do
VERIF_SEED=$s VERIF_TIER=quick bash $V/check.sh ${CHECK:-$prop} >/tmp/seed.$id.check.$s 2>&1; echo "check ${CHECK:-$prop} seed $s: $? ($(grep -c '^VIOLATION' /tmp/seed.$id.check.$s) violations) $(grep -m1 '^VIOLATION' /tmp/seed.$id.check.$s)"
done
