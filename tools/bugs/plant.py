#!/usr/bin/env python3
# plant.py ID [--demo-only] : ids defined in /tmp/bugs/defs_*.py as B["id"]=dict(prop=,edits=[(file,old,new)],needs=,what=)
import sys, subprocess, glob, os, json, shutil, time
B={}
for f in sorted(glob.glob('/tmp/bugs/defs_*.py')): exec(open(f).read())
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def one(i, steps):
    b=B[i]; d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    try:
        for f,o,n in b['edits']:
            p='/repo/'+f; s=open(p).read()
            if s.count(o)!=1: print(i,'edit matches',s.count(o),f); return
            open(p,'w').write(s.replace(o,n))
        open(d+'/patch.diff','w').write(subprocess.run('git -C /repo diff',shell=True,stdout=subprocess.PIPE,text=True).stdout)
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['what']},open(d+'/meta.json','w'),indent=1)
        if 't' in steps:
            r=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json; python3 /tmp/tst.py'); print(i,'tests:',r.stdout.strip().split('\n')[-1][-200:])
        if 'c' in steps:
            t=time.time(); r=sh('cd /verif && VERIF_BUILD=/tmp/bp VERIF_SEED=%s python3 check.py %s quick'%(os.environ.get('SEED','1'),b['prop'])); 
            print(i,b['prop'],'rc',r.returncode,'%.0fs'%(time.time()-t),r.stdout.strip()[-400:])
            for l in r.stdout.split('\n'):
                if l.startswith('VIOLATION'): shutil.copy(l.split('replay=')[1].strip(),'/tmp/bugs/%s.case'%i)
        if 'd' in steps and os.path.exists(d+'/demo.sh'):
            r=sh('cd /repo && bash %s/demo.sh'%d); print(i,'demo with bug rc',r.returncode,r.stdout.strip()[-300:])
    finally:
        sh('git -C /repo checkout -- .')
    if 'd' in steps and os.path.exists(d+'/demo.sh'):
        r=sh('cd /repo && bash %s/demo.sh'%d); print(i,'demo clean rc',r.returncode,r.stdout.strip()[-300:])
ids=sys.argv[2:] or sorted(B)
for i in ids: one(i,sys.argv[1]); sys.stdout.flush()
