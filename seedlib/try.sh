#!/bin/bash
# try.sh ID: validate the planted change /verif/seeded/ID on /repo and run its check
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
demo() { t=$(mktemp -d); cp -r $d/. $t/; rm -f $t/*.diff $t/meta.json; (cd /repo && timeout 300 bash $t/demo.sh) > /tmp/demo.$id.$1.log 2>&1; r=$?; find $t -delete; echo $r; }
if [ "$2" != nobase ]; then bash /opt/vp/build.sh > /tmp/b0.log 2>&1 || echo "base build fails"; echo "$id base demo exit $(demo base)"; fi
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/test.sh /tmp/t.$id.json > /tmp/t.$id.log 2>&1
python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(f'/tmp/t.{sys.argv[1]}.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','tests','stable'):
            if k in x: return set(x[k]) if isinstance(x[k],list) else set(k2 for k2,v in x[k].items())
    return set(x)
B=names(b); T=names(t)
m=B-T
print(sys.argv[1],'stable tests', len(B), 'missing', len(m), sorted(m)[:5])
P
echo "$id patched demo exit $(demo patched): $(tail -2 /tmp/demo.$id.patched.log | tr '\n' ' ')"
shift; [ "$1" = nobase ] && shift
for p in $prop "$@"; do
  bash /tmp/b.sh && /tmp/an -prop $p -home /tmp/h > /tmp/c.$id.log; echo "$id check $p exit $?: $(grep -c VIOLATION /tmp/c.$id.log) $(head -c 400 /tmp/c.$id.log)"
done
git checkout -- . 
