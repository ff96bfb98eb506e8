#!/usr/bin/env python3
"""plant.py [ids...]: builds /verif/seeded/<id> from the definitions in bugs*.py"""
import sys,os,subprocess,json,shutil,glob
BUGS={}
def bug(id,prop,needs,breaks,edits,demo,race=False):
    assert id not in BUGS,id
    BUGS[id]=dict(prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,race=race)
for f in sorted(glob.glob('/tmp/plant/bugs*.py')):
    exec(open(f).read())
DEMO='''#!/bin/bash
# Runs main.go, which lies beside this file, against the loukoum tree in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=@CGO@
go build @RACE@-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 99
timeout 120 "$tmp/demo"
'''
env=dict(os.environ,GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',GOFLAGS='-mod=mod')
def sh(cmd,cwd):
    return subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
ids=sys.argv[1:] or [i for i in BUGS if not os.path.exists('/verif/seeded/%s/meta.json'%i)]
W='/tmp/mut/repo'
for id in ids:
    b=BUGS[id]
    os.makedirs('/tmp/mut',exist_ok=True)
    if os.path.exists(W): shutil.rmtree(W)
    sh('git clone -q /repo %s'%W,'/')
    ok=True
    for f,old,new in b['edits']:
        p=os.path.join(W,f); s=open(p).read() if os.path.exists(p) else ''
        if old is None: s=new
        elif s.count(old)!=1: print(id,'EDIT',f,s.count(old),repr(old[:60])); ok=False; break
        else: s=s.replace(old,new)
        open(p,'w').write(s)
    if not ok: continue
    sh('gofmt -l . ; git add -AN',W)
    fm=sh('gofmt -l $(git diff --name-only)',W).stdout
    if fm.strip(): print(id,'gofmt',fm)
    d=sh('git diff',W).stdout
    out='/tmp/plant/out/'+id
    if os.path.exists(out): shutil.rmtree(out)
    os.makedirs(out)
    open(out+'/patch.diff','w').write(d)
    open(out+'/main.go','w').write(b['demo'])
    open(out+'/demo.sh','w').write(DEMO.replace('@RACE@','-race ' if b['race'] else '').replace('@CGO@','1' if b['race'] else '0')); os.chmod(out+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(out+'/meta.json','w'),indent=1)
    r=sh('go vet ./builder ./stmt ./types ./lexer ./parser ./token ./format . 2>&1 | grep -v "^#" | head; go test -vet=off -count=1 ./... 2>&1',W)
    if 'FAIL' in r.stdout: print(id,'TESTS FAIL',r.stdout[-1500:]); continue
    r1=sh('bash %s/demo.sh'%out,W)
    r0=sh('bash %s/demo.sh'%out,'/repo')
    if r0.returncode!=0 or r1.returncode in (0,99): print(id,'DEMO clean=%d patched=%d'%(r0.returncode,r1.returncode),r0.stdout[-600:],'//',r1.stdout[-800:]); continue
    dst='/verif/seeded/'+id
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree(out,dst)
    print(id,b['prop'],'ok:',r1.stdout.strip()[-150:].replace('\n',' | '))
