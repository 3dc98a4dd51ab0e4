#!/usr/bin/env python3
"""seedtest.py [ID...]: confirms planted bugs in a scratch copy of /repo: applies, builds, passes the stable
tests, demo passes without and fails with it; then runs the property's check on the scratch copy (and on it with
comment/no-op edits the vcheck way is left to vcheck). Never touches /repo."""
import sys, os, json, subprocess, shutil, tempfile
V='/verif'; S=V+'/seeded'
ENV=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd,str), capture_output=True, text=True, env=dict(ENV,**k))
ids=sys.argv[1:] or sorted(os.listdir(S))
base=set(); b=json.load(open('/opt/vp/BASELINE.json'))
tool='/tmp/vt_seed'
r=run(['go','build','-o',tool,'.'],V+'/tool')
if r.returncode: sys.exit(r.stderr)
notests='--notests' in ids; ids=[i for i in ids if not i.startswith('--')] or sorted(os.listdir(S))
for i in ids:
    d=tempfile.mkdtemp(prefix='seed'); t=d+'/repo'
    shutil.copytree('/repo',t,ignore=shutil.ignore_patterns('.git'))
    run('git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x',t)
    m=json.load(open(f'{S}/{i}/meta.json'))
    lay=d+'/lay'; shutil.copytree(f'{S}/{i}',lay,ignore=shutil.ignore_patterns('*.diff','meta.json'))
    out=[]
    r0=run(['bash',lay+'/demo.sh'],t); out.append('demo clean %d'%r0.returncode)
    if r0.returncode: print(r0.stdout[-800:],r0.stderr[-500:])
    r=run(['git','apply',f'{S}/{i}/patch.diff'],t); out.append('apply %d'%r.returncode)
    if r.returncode: print(r.stderr)
    r=run('go build ./...',t); out.append('build %d'%r.returncode)
    if r.returncode: print(r.stderr)
    if not notests:
        r=run('go test -vet=off -count=1 ./...',t); out.append('tests %d'%r.returncode)
        if r.returncode: print('\n'.join(x for x in r.stdout.splitlines() if 'FAIL' in x)[:1500])
    r1=run(['bash',lay+'/demo.sh'],t); out.append('demo patched %d'%r1.returncode)
    os.makedirs(d+'/v/evidence'); shutil.copy(V+'/known-findings.txt',d+'/v/')
    r=run([tool,m['property']],t,VERIF_DIR=d+'/v',VERIF_REPO=t)
    out.append('check %s %d'%(m['property'],r.returncode))
    print(i,'; '.join(out)); print('   ','\n    '.join(r.stdout.strip().splitlines()[-3:])[:700])
    shutil.rmtree(d)
