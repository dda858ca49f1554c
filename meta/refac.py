#!/usr/bin/env python3
# refac.py SPEC.py [id...]: applies behaviour-preserving edits to a scratch copy and checks that the properties stay quiet.
# SPEC.py defines REFACS = [dict(id,props,edits=[(file,old,new)])].
import sys,os,json,subprocess,shutil,runpy
SW=os.environ.get('RW','/tmp/rw')
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='',GOWORK=SW+'/go.work',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
def sh(c,cwd=SW,t=1800): return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,timeout=t)
spec=runpy.run_path(sys.argv[1])['REFACS']; only=sys.argv[2:]
shutil.rmtree(SW,ignore_errors=True); subprocess.run(['cp','-a','/repo',SW],check=True)
for s in spec:
    if only and s['id'] not in only: continue
    sh('git checkout -q -- .')
    try:
        for f,a,b in s['edits']:
            p=SW+'/'+f; t=open(p).read()
            assert t.count(a)==1,(f,t.count(a),a)
            open(p,'w').write(t.replace(a,b))
    except AssertionError as e: print(s['id'],'EDIT DOES NOT APPLY',e); continue
    r=sh('gofmt -l auth codec event_manager msc_client msc_server utils; go build ./auth/... ./codec/... ./event_manager/... ./msc_client/... ./msc_server/... ./utils/...')
    if r.returncode: print(s['id'],'BUILD FAILS',r.stderr[:600]); continue
    r=sh('go test -vet=off -count=1 ./codec_test/... ./utils_test/... ./auth/... 2>&1 | grep -v "no test files" | grep FAIL')
    if r.stdout.strip(): print(s['id'],'tests:',r.stdout[:200])
    for p in s['props']:
        G='/tmp/grw_'+os.path.basename(SW)
        r=sh('mkdir -p %s && cp -rT /verif/contracts %s/contracts && cp /verif/known-findings.txt %s/; timeout 890 /verif/bin/gov -check -verif %s -repo %s -prop %s -tier quick'%(G,G,G,G,SW,p),cwd='/verif')
        print(s['id'],p,'quiet' if r.returncode==0 else 'ALARM rc=%d'%r.returncode,r.stdout.strip().splitlines()[-1:] if r.returncode==0 else r.stdout[-900:]+r.stderr[-300:]); sys.stdout.flush()
