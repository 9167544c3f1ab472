#!/usr/bin/env python3
"""Plant a bug: seed.py ID PROPERTY FILE OLD NEW TESTFILE NEEDS BREAKS  (read from a .seed file)

A .seed file has sections separated by lines '=== name'. Sections: id, property, needs, breaks, edit (repeatable:
first line the file name, then old text, a line '---', new text), test (a Go test in package font with func TestSeed).
The change is confirmed in a scratch copy: it compiles, the stable tests pass, the demonstration passes without it and fails with it.
"""
import sys, os, subprocess, json, re, shutil
W='/tmp/seedwt'
def sh(c, cwd=None, t=300):
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return p.returncode,p.stdout
DEMO='''#!/bin/sh
# Runs the demonstration as an in-package test laid over the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_seed_test.go":"%s/seed_test.go.txt"}}' "$PWD" "$d" > "$t/o.json"
GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off timeout 250 go test -overlay "$t/o.json" -count=1 -run '^TestSeed$' .
'''
def main(fn):
    secs=[]
    for l in open(fn):
        m=re.match(r'=== (\w+)$',l)
        if m: secs.append([m[1],'']); continue
        secs[-1][1]+=l
    g=lambda k: next(v for n,v in secs if n==k).strip()
    sid=g('id')
    if os.path.exists(W): shutil.rmtree(W)
    sh(f'cp -a /repo {W}'); sh('git checkout -q -- . ; git clean -fdq',W)
    out=f'/verif/seeded/{sid}'
    os.makedirs(out,exist_ok=True)
    open(out+'/seed_test.go.txt','w').write(g('test')+'\n')
    open(out+'/demo.sh','w').write(DEMO); os.chmod(out+'/demo.sh',0o755)
    rc,o=sh(f'sh {out}/demo.sh',W)
    if rc!=0: print(sid,'DEMO FAILS ON CLEAN TREE\n',o[-3000:]); return 1
    for n,v in secs:
        if n!='edit': continue
        f,rest=v.split('\n',1)
        old,new=rest.split('\n---\n',1) if '\n---\n' in rest else (rest.split('---\n',1))
        new=new.rstrip('\n'); old=old.rstrip('\n')
        s=open(f'{W}/{f}').read()
        if s.count(old)!=1: print(sid,f'OLD TEXT OCCURS {s.count(old)} TIMES:',old); return 1
        open(f'{W}/{f}','w').write(s.replace(old,new))
    rc,o=sh('gofmt -l . ; GOFLAGS=-mod=mod GOPROXY=off go vet . 2>&1 | grep -v "^#" | head -3; GOFLAGS=-mod=mod GOPROXY=off go build ./...',W)
    if rc!=0: print(sid,'BUILD FAILS\n',o); return 1
    sh('GOFLAGS=-mod=mod GOPROXY=off go test -json ./... > /tmp/seed.json',W)
    ok=set()
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    fails=[]
    for l in open('/tmp/seed.json'):
        try: e=json.loads(l)
        except: continue
        if e.get('Action')=='fail' and e.get('Test'): fails.append(e['Test'])
        if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Test'])
    miss=[b for b in base if not any(b.endswith(t) for t in ok)]
    if miss: print(sid,'STABLE TESTS FAIL',miss[:5],fails[:5]); return 1
    rc,o=sh(f'sh {out}/demo.sh',W)
    if rc==0: print(sid,'DEMO PASSES WITH THE CHANGE'); return 1
    if '--- FAIL' not in o and 'panic' not in o: print(sid,'ODD FAILURE',o[-1500:]); return 1
    rc,d=sh('git diff',W)
    open(out+'/patch.diff','w').write(d)
    json.dump({"property":g('property'),"needs":g('needs'),"what_it_breaks":g('breaks')},open(out+'/meta.json','w'),indent=1)
    shutil.rmtree(W)
    print(sid,'ok')
    return 0
sys.exit(max([main(f) for f in sys.argv[1:]]+[0]))
