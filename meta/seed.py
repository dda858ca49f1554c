#!/usr/bin/env python3
# seed.py SPEC.py [id...]: confirms planted bugs in a scratch copy and stores those that hold up in /verif/seeded.
# SPEC.py defines SEEDS = [dict(id,prop,pkg,edits=[(file,old,new)],demo,needs,what)].
import sys,os,json,subprocess,shutil,runpy
SW='/tmp/sw'
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='',GOWORK=SW+'/go.work',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
DEMO='''#!/bin/bash
# Runs demo_test.go inside %(pkg)s of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=$R/go.work GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$R/%(pkg)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > $T/o.json
go test -vet=off -count=1 -timeout 120s -overlay $T/o.json -run Demo ./%(pkg)s
'''
def sh(c,cwd=SW,t=600):
    return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,timeout=t)
def reset(): sh('git checkout -q -- . && git clean -qfd -e nothing') 
spec=runpy.run_path(sys.argv[1])['SEEDS']
only=sys.argv[2:]
shutil.rmtree(SW,ignore_errors=True); subprocess.run(['cp','-a','/repo',SW],check=True)
over=json.load(open('/opt/vp/overlay.json')); over={'Replace':{k.replace('/repo/',SW+'/'):v for k,v in over['Replace'].items()}}
json.dump(over,open('/tmp/sw_overlay.json','w'))
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for s in spec:
    if only and s['id'] not in only: continue
    sh('git checkout -q -- .')
    try:
        for f,a,b in s['edits']:
            p=SW+'/'+f; t=open(p).read()
            assert t.count(a)==1,(f,t.count(a),a)
            open(p,'w').write(t.replace(a,b))
    except AssertionError as e:
        print(s['id'],'EDIT DOES NOT APPLY',e); continue
    D='/tmp/seedwork/'+s['id']; shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
    open(D+'/patch.diff','w').write(sh('git diff').stdout)
    open(D+'/demo_test.go','w').write(s['demo'])
    open(D+'/demo.sh','w').write(DEMO%s); os.chmod(D+'/demo.sh',0o755)
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['what']),open(D+'/meta.json','w'),indent=1)
    r=sh('go build ./auth/... ./codec/... ./database/... ./event_manager/... ./msc_client/... ./msc_server/... ./utils/...')
    if r.returncode: print(s['id'],'BUILD FAILS',r.stderr[:600]); continue
    r=sh(D+'/demo.sh')
    if r.returncode==0: print(s['id'],'DEMO PASSES WITH BUG'); continue
    if 'demo' not in r.stdout and 'panic' not in r.stdout: print(s['id'],'?? demo output',r.stdout[-600:],r.stderr[-300:]); 
    r=sh('go test -json -vet=off -count=1 -timeout 5m -overlay /tmp/sw_overlay.json ./auth/... ./codec/... ./codec_test/... ./database/... ./event_manager/... ./msc_client ./msc_client/cmd/... ./msc_client/session/... ./msc_server/... ./utils/... ./utils_test/...')
    ok=set()
    for l in r.stdout.splitlines():
        try: o=json.loads(l)
        except Exception: continue
        if o.get('Action')=='pass' and o.get('Test'): ok.add(o['Package']+'/'+o['Test'])
    miss=base-ok
    if miss: print(s['id'],'TESTS FAIL',sorted(miss)[:4]); continue
    sh('git stash -q'); r=sh(D+'/demo.sh'); sh('git stash pop -q')
    if r.returncode: print(s['id'],'DEMO FAILS ON CLEAN TREE',r.stdout[-800:],r.stderr[-400:]); continue
    T='/verif/seeded/'+s['id']; shutil.rmtree(T,ignore_errors=True); shutil.copytree(D,T)
    r=sh('./bin/gov -check -verif /tmp/gvw -repo /tmp/sw -prop %s -tier quick'%s['prop'],cwd='/verif',t=900) if False else sh('mkdir -p /tmp/gvw && cp -rT /verif/contracts /tmp/gvw/contracts && cp /verif/known-findings.txt /tmp/gvw/; timeout 890 /verif/bin/gov -check -verif /tmp/gvw -repo /tmp/sw -prop %s -tier quick'%s['prop'],cwd='/verif',t=900)
    v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print(s['id'],s['prop'],'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode, v[:1], r.stdout.splitlines()[-1:] if not v else '')
    sys.stdout.flush()
