#!/bin/bash
# mkseed.sh ID PROPERTY FILE... <<sections : plants a change and keeps it when it
# builds, passes the stable tests and its demonstration tells it from the original.
# Sections on stdin: python code changing the text s of the current file (use
# f(name) to select another file), then lines ---demo---, ---needs---, ---breaks---.
id=$1; prop=$2; shift 2
S=/tmp/seedrepo; rm -rf /tmp/seedrepo; cp -a /repo $S
in=$(mktemp); cat > $in
python3 - "$in" "$id" "$prop" "$S" "$@" <<'P' || exit 9
import sys,json,os
inp,id,prop,S=sys.argv[1:5]; files=sys.argv[5:]
t=open(inp).read()
py,rest=t.split('---demo---\n',1); demo,rest=rest.split('---needs---\n',1); needs,breaks=rest.split('---breaks---\n',1)
texts={f:open(os.path.join(S,f)).read() for f in files}; orig=dict(texts)
def rep(a,b,f=None,n=1):
    f=f or files[0]
    assert texts[f].count(a)==n,(f,a,texts[f].count(a))
    texts[f]=texts[f].replace(a,b)
exec(py,{'rep':rep,'texts':texts})
for f in files: open(os.path.join(S,f),'w').write(texts[f])
d='/tmp/seedout/'+id; os.makedirs(d,exist_ok=True)
body='''#!/bin/bash
# exit 0: behaves as required; 1: broken
F=$PWD/fbdl
d=$(mktemp -d) || exit 0
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 0
'''+demo
open(d+'/demo.sh','w').write(body)
os.chmod(d+'/demo.sh',0o755)
json.dump({"property":prop,"needs":needs.strip(),"what_it_breaks":breaks.strip()},open(d+'/meta.json','w'),indent=1)
P
. /opt/vp/env.sh
cd $S && git diff > /tmp/seedout/$id/patch.diff
go build ./... && go build -o fbdl ./cmd/fbdl || { echo NOBUILD; exit 8; }
(cd /repo && bash /tmp/seedout/$id/demo.sh >/tmp/seedout/o0 2>&1); r0=$?
bash /tmp/seedout/$id/demo.sh >/tmp/seedout/o1 2>&1; r1=$?
[ $r0 = 0 ] || { echo "demo fails on the original: rc $r0"; tail -5 /tmp/seedout/o0; exit 7; }
[ $r1 != 0 ] || { echo "demo passes with the patch"; tail -5 /tmp/seedout/o1; exit 6; }
# stable tests
sed "s#/repo#$S#g" /opt/vp/test.sh > /tmp/seedout/test.sh
bash /tmp/seedout/test.sh /tmp/seedout/res.json >/tmp/seedout/tlog 2>&1
python3 - <<'P' || { echo "TESTS FAIL"; exit 5; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedout/res.json'))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    print(d.keys())
bp=set(b['stable']); rp=set(r['passed'])
m=bp-rp
if m: print(len(m),list(m)[:4]); sys.exit(1)
P
mkdir -p /verif/seeded/$id && cp /tmp/seedout/$id/* /verif/seeded/$id/
res=$(/tmp/fc -repo $S -root /tmp/root $prop | grep VIOLATION | head -1 | cut -c1-300)
echo "KEPT $id; $prop: ${res:-MISSED}"
