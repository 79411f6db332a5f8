#!/usr/bin/env python3
"""Applies each behaviour-preserving edit of refactors*.py to a scratch copy and runs every check on it (development tool).
usage: run.py [-j N] [regexp]"""
import importlib.util, os, subprocess, sys, shutil, glob, re, concurrent.futures as cf
here=os.path.dirname(os.path.abspath(__file__))
R=[]
for f in sorted(glob.glob(here+'/refactors*.py')):
    spec=importlib.util.spec_from_file_location('b',f); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m); R+=m.R
args=sys.argv[1:]; j=4; keep=False
if args[:1]==['-k']: keep=True; args=args[1:]  # keep the scratch copy
if args[:1]==['-j']: j=int(args[1]); args=args[2:]
pat=args[0] if args else '.'
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOSUMDB='off',GOFLAGS='-mod=mod')
def one(r):
    id,edits=r
    w='/tmp/refac.'+id
    shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in edits:
        s=open(f'{w}/{f}').read()
        if s.count(o)!=1: return f'{id}: BAD EDIT {f} count={s.count(o)}: {o[:60]!r}'
        open(f'{w}/{f}','w').write(s.replace(o,n))
    p=subprocess.run('go build ./... && go vet ./cmd/... . && go test -count=1 ./... >/tmp/refac.%s.t 2>&1'%id,shell=True,cwd=w,env=env,capture_output=True,text=True)
    if p.returncode: 
        return f'{id}: BUILD/TEST FAIL {(p.stdout+p.stderr)[:400]}'
    p=subprocess.run(['timeout','850','/tmp/dc','-repo',w,'-verif','/tmp/ve','-all'],capture_output=True,text=True)
    out=p.stdout.splitlines()
    al=[l for l in out if ' ALARM ' in l]
    q=[l for l in out if ' quiet ' in l]
    if not keep: shutil.rmtree(w)
    t=out[-1] if out else ''
    if not al and len(q)>=22: return f'{id}: quiet {t}'
    return f'{id}: ** ALARM {len(q)} quiet; '+' '.join(l.split()[0] for l in al)+f' {t}\n      '+'\n      '.join(l[:330] for l in al[:2])
with cf.ThreadPoolExecutor(j) as ex:
    for r in ex.map(one,[r for r in R if re.search(pat,r[0])]): print(r,flush=True)
