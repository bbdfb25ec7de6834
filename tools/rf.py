#!/usr/bin/env python3
"""rf.py [names...]: apply each refactoring in /tmp/rf/*.py (EDITS=[(file,old,new)]), build, run all checks, report alarms"""
import sys,os,glob,subprocess,shutil,re,concurrent.futures as cf
names=sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob('/tmp/rf/*.py'))
PS=os.environ['PS'].split() if os.environ.get('PS') else ['P%02d'%i for i in range(1,int(os.environ.get('NP',"29"))+1)]
def one(n):
    ns={}; exec(open(f'/tmp/rf/{n}.py').read(),ns)
    d=f'/tmp/rfrepo/{n}'; shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/rfrepo',exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    for e in ns['EDITS']:
        f,o,w=e[:3]; p=f'{d}/{f}'; s=open(p).read()
        if o not in s: return n,'ABSENT '+o[:80]
        s=s.replace(o,w,-1 if len(e)>3 else 1); open(p,'w').write(s)
    r=subprocess.run('. /opt/vp/env.sh; cd %s && go build ./... && go vet ./internal/party ./pkg/core'%d,shell=True,capture_output=True,text=True,executable='/bin/bash')
    if r.returncode: return n,'NOBUILD '+r.stderr[:1500]
    out=[]
    for c in PS:
        env=dict(os.environ,DYCHECK_DEV_REPO=d)
        r=subprocess.run([os.environ.get('AN','/tmp/an'),'debug',c],capture_output=True,text=True,errors="replace",env=env)
        L=[l for l in r.stdout.splitlines()+r.stderr.splitlines() if ('FAIL' in l or 'panic' in l) and 'element of MVBAIN.J as an index' not in l]
        if L or r.returncode not in(0,1): out.append(f'  {c}: {len(L)} '+'\n      '.join(x[:int(os.environ.get("W","230"))] for x in L[:int(os.environ.get("L","2"))])+(r.stderr[-300:] if r.returncode not in (0,1) else ''))
    if not os.environ.get('KEEP'): shutil.rmtree(d)
    return n,'\n'.join(out) or 'quiet'
with cf.ThreadPoolExecutor(int(os.environ.get("NWK","6"))) as ex:
    for n,o in ex.map(one,names): print(n,':',o if o=='quiet' else '\n'+o,flush=True)
