import os,subprocess,json,sys,shutil,textwrap,re
OUT='/verif/seeded'
ENV='. /opt/vp/env.sh >/dev/null 2>&1; '
DEMO='''#!/bin/bash
# Builds demo.go.txt against the module in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go.txt" "$d/main.go"
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/zyedidia/gpeg v0.0.0\\n\\nreplace github.com/zyedidia/gpeg => %s\\n' "$repo" > "$d/go.mod"
cd "$d" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
timeout 250 go run @RACE@. 
'''
def sh(c,cwd=None,t=600):
    r=subprocess.run(['bash','-c',c],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return r.returncode,r.stdout
def fresh():
    shutil.rmtree('/tmp/seed/wt',ignore_errors=True)
    sh('cp -a /repo /tmp/seed/wt')
def stable(path):
    b=json.load(open('/opt/vp/BASELINE.json'))
    return b
def tests(wt):
    rc,o=sh(ENV+f'cd {wt}; export GODEBUG=randautoseed=0; go test -json -vet=off -count=1 -timeout 5m ./...',t=600)
    res={}
    for l in o.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Test') and e['Action'] in('pass','fail'): res[e['Package']+'/'+e['Test']]=e['Action']
    st=json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in st if res.get(t)!='pass'],o
def wtrel(p): return '/tmp/seed/wt/'+p
def plant(b, check=True):
    fresh()
    for f,old,new in b['edits']:
        p=wtrel(f); s=open(p).read()
        if s.count(old)!=1: print(b['id'],'EDIT MATCHES',s.count(old),f); return False
        open(p,'w').write(s.replace(old,new))
    rc,o=sh(ENV+'cd /tmp/seed/wt; gofmt -w '+' '.join(e[0] for e in b['edits'])+'; go build ./...')
    if rc: print(b['id'],'BUILD FAIL',o); return False
    d=f"{OUT}/{b['id']}"; os.makedirs(d,exist_ok=True)
    rc,o=sh('git diff',cwd='/tmp/seed/wt'); open(d+'/patch.diff','w').write(o)
    open(d+'/demo.sh','w').write(DEMO.replace('@RACE@','-race ' if b.get('race') else '')); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.go.txt','w').write(b['demo'].lstrip())
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
    rc0,o0=sh(f'bash {d}/demo.sh',cwd='/repo')
    rc1,o1=sh(f'bash {d}/demo.sh',cwd='/tmp/seed/wt')
    bad=False
    for i in range(b.get('reps',1)):
        fails,o=tests('/tmp/seed/wt')
        f2=[f for f in fails if not f.startswith('TestJson') ]
        if f2: bad=True; break
    ok = rc0==0 and rc1!=0 and not bad
    print(b['id'],'OK' if ok else 'NOT OK','clean',rc0,'patched',rc1,'tests',f2 if bad else 'pass', '' if rc0==0 else o0[-600:], '| '+o1.strip()[:160])
    if not ok: shutil.rmtree(d)
    return ok
if __name__=='__main__':
    import importlib
    sys.path.insert(0,'/tmp/seed')
    mod=importlib.import_module(sys.argv[1])
    for b in mod.BUGS:
        if len(sys.argv)>2 and b['id'] not in sys.argv[2:]: continue
        plant(b)
