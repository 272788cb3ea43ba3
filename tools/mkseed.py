#!/usr/bin/env python3
"""usage: mkseed.py BATCH.py   BATCH defines seeds = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
Creates /verif/seeded/<id>/ after confirming in a scratch copy that the change builds, passes the tests and fails the demo."""
import sys, os, subprocess, json, shutil
ROOT='/verif/seeded'; WT='/tmp/wt'
DEMO='''#!/bin/bash
# exit 0 when the behaviour holds, nonzero otherwise; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export GOROOT=/opt/veriftools/go1.23.12; export PATH=$GOROOT/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/o.json"
go build EXTRA -overlay "$tmp/o.json" -o "$tmp/demo" ./zz_demo || exit 3
timeout 100 "$tmp/demo"
'''
def sh(cmd, cwd=None):
    return subprocess.run(['bash','-c','. /opt/vp/env.sh; '+cmd],cwd=cwd,capture_output=True,text=True)
g={}; exec(open(sys.argv[1]).read(),g)
only=sys.argv[2:]
base=json.load(open('/opt/vp/BASELINE.json'))
for s in g['seeds']:
    if only and s['id'] not in only: continue
    d=f"{ROOT}/{s['id']}"
    if os.path.exists(d) and not only: continue
    shutil.rmtree(WT,ignore_errors=True); shutil.copytree('/repo',WT,symlinks=True)
    ok=True
    for f,old,new in s['edits']:
        p=f'{WT}/{f}'; t=open(p).read()
        if t.count(old)!=1: print(s['id'],'EDIT COUNT',f,t.count(old)); ok=False; break
        open(p,'w').write(t.replace(old,new))
    if not ok: continue
    sh('gofmt -l .',WT)
    diff=sh('git diff',WT).stdout
    r=sh('go build ./... && go vet ./est/... >/dev/null 2>&1; go build ./...',WT)
    if r.returncode: print(s['id'],'BUILD',r.stderr); continue
    r=sh("go test -json -vet=off -count=1 ./... > /tmp/wt.json; grep -h '\"Action\":\"fail\"' /tmp/wt.json | head",WT)
    if r.stdout.strip(): print(s['id'],'TESTS FAIL',r.stdout[:600]); continue
    r=sh("go test -vet=off -count=1 -cpu 1 -run '^$' -bench . -benchtime 1x ./... | grep -E '^(---|FAIL|panic)'",WT)
    if r.stdout.strip(): print(s['id'],'BENCH FAIL',r.stdout[:600]); continue
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.go','w').write(s['demo'])
    open(d+'/demo.sh','w').write(DEMO.replace('EXTRA',s.get('build','')))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    a=sh(f'bash {d}/demo.sh','/repo'); b=sh(f'bash {d}/demo.sh',WT)
    if a.returncode!=0 or b.returncode in (0,3):
        print(s['id'],'DEMO',a.returncode,a.stdout[-500:],a.stderr[-500:],'|',b.returncode,b.stdout[-500:],b.stderr[-500:]); shutil.rmtree(d); continue
    print(s['id'],'ok',b.returncode,(b.stdout+b.stderr)[-160:].replace('\n',' / '))
shutil.rmtree(WT,ignore_errors=True)
