#!/usr/bin/env python3
"""Screens the checks with the changes of mutants.py: applies each to a copy of /repo, builds the simulator against it and
runs the property's search without minimising. Usage: screen.py [ID-prefix ...] (env: CHECK=C05 to run another property's check)"""
import sys,os,subprocess,shutil,time,json
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mutants import M
sim=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
W='/tmp/mut'; R=W+'/repo'
os.makedirs(W,exist_ok=True)
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
if not os.path.exists(R): sh('cp','-a','/repo',R)
sh('git','-C',R,'fetch','-q','/repo','HEAD'); sh('git','-C',R,'reset','-q','--hard','FETCH_HEAD')
d=subprocess.run(['git','-C','/repo','diff','HEAD'],stdout=subprocess.PIPE,text=True).stdout # the working tree, not only what is committed
if d: subprocess.run(['git','-C',R,'apply','-'],input=d,text=True,check=True); sh('git','-C',R,'-c','user.name=s','-c','user.email=s','commit','-qam','scratch')
for x in M:
    id,prop,f,old,new,n=x[:6]; more=x[6] if len(x)>6 else []
    if len(sys.argv)>1 and not any(id.startswith(p) for p in sys.argv[1:]): continue
    sh('git','-C',R,'checkout','-q','--','.')
    bad=None
    for (ff,o,w) in [(f,old,new)]+list(more):
        s=open(f'{R}/{ff}').read()
        if s.count(o)!=1: bad=f'{ff}: {s.count(o)} matches'; break
        open(f'{R}/{ff}','w').write(s.replace(o,w))
    if bad: print(id,prop,'NOT APPLICABLE',bad,flush=True); continue
    b=sh('bash',sim+'/sim/build.sh',W+'/bin/sim',R)
    if b.returncode: print(id,prop,'BUILD FAILS',b.stdout[-600:],flush=True); continue
    t=time.time()
    p=os.environ.get('CHECK',prop)
    r=sh(W+'/bin/sim','check',p,'quick',env=dict(os.environ,VERIF_EVIDENCE=W+'/ev',VERIF_KNOWN=sim+'/known_findings.txt',VERIF_MINIMISE='0',VERIF_SEED=os.environ.get('VERIF_SEED','1')))
    l=r.stdout.strip().split('\n')
    print(id,p,{0:'MISSED',1:'caught'}.get(r.returncode,f'EXIT {r.returncode}'),f'{time.time()-t:.0f}s',l[0][:230] if r.returncode==1 else l[-1][:300],flush=True)
sh('git','-C',R,'checkout','-q','--','.')
