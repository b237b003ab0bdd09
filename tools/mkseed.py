#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG: reads a JSON {edits:[[file,old,new]...], demo: Go source, needs:, breaks:} from stdin,
confirms the bug in a scratch copy (applies, builds, stable tests pass, demo passes without and fails with it) and
stores it in /verif/seeded/ID."""
import sys,json,os,subprocess,shutil,tempfile
ident,prop,pkg=sys.argv[1:4]
spec=json.load(sys.stdin)
out='/verif/seeded/'+ident
tmp=tempfile.mkdtemp(prefix='seed')
W=tmp+'/repo'
subprocess.check_call(['git','clone','-q','/repo',W])
for f,a,b in spec['edits']:
    p=W+'/'+f; s=open(p).read()
    assert s.count(a)==1,(f,a,s.count(a))
    open(p,'w').write(s.replace(a,b))
diff=subprocess.check_output(['git','-C',W,'diff']).decode()
os.makedirs(out,exist_ok=True)
open(out+'/patch.diff','w').write(diff)
open(out+'/demo_test.go','w').write(spec['demo'])
open(out+'/demo.sh','w').write('''#!/bin/bash
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp)
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > $O
go test -vet=off -overlay $O -run 'TestSeededDemo$' -count=1 -timeout 120s ./%s
'''%(pkg,pkg))
os.chmod(out+'/demo.sh',0o755)
json.dump({"property":prop,"needs":spec['needs'],"what_it_breaks":spec['breaks']},open(out+'/meta.json','w'),indent=1)
def run(d):
    r=subprocess.run(['bash',out+'/demo.sh'],cwd=d,capture_output=True,text=True)
    return r.returncode,(r.stdout+r.stderr)[-1500:]
env='. /opt/vp/env.sh; cd '+W+'; '
ok=True
rc,o=run(W)
print('with bug: demo rc',rc, o.strip()[:400].replace('\n',' | '))
ok&=rc!=0 and 'build failed' not in o
b=subprocess.run(['bash','-c',env+'go build ./... && go test ./... 2>&1 | tail -20'],capture_output=True,text=True)
base=json.load(open('/opt/vp/BASELINE.json'))
t=subprocess.run(['bash','-c',env+'go test -json ./...'],capture_output=True,text=True).stdout
passed=set()
for l in t.splitlines():
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Package']+'/'+e['Test'])
st=base.get('stable') or base.get('passed') or base
st=[x for x in (st if isinstance(st,list) else st.get('passed',[]))]
miss=[x for x in st if x not in passed]
print('build rc',b.returncode,'stable tests missing',miss,'of',len(st))
ok&=b.returncode==0 and not miss and len(st)>0
subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
rc,o=run(W)
print('without: demo rc',rc,o.strip()[-300:] if rc else '')
ok&=rc==0
a=subprocess.run(['git','-C',W,'apply','--check',out+'/patch.diff'])
ok&=a.returncode==0
shutil.rmtree(tmp)
if not ok:
    shutil.rmtree(out); print('REJECTED',ident); sys.exit(1)
print('KEPT',ident)
