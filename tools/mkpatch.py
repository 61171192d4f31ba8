#!/usr/bin/env python3
# mkpatch.py ID property 'needs' 'what' FILE OLD NEW [FILE OLD NEW...]
import sys,os,json,subprocess,shutil,tempfile
a=sys.argv; i,p,n,w=a[1:5]; D='/verif/seeded/'+i; os.makedirs(D,exist_ok=True)
T=tempfile.mkdtemp(dir='/tmp'); subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',T+'/w'])
try:
    e=a[5:]
    for k in range(0,len(e),3):
        f=T+'/w/'+e[k]; s=open(f).read(); old=e[k+1]; c=s.count(old)
        if c!=1: sys.exit('%s: %d occurrences of %r'%(e[k],c,old))
        open(f,'w').write(s.replace(old,e[k+2]))
    d=subprocess.check_output(['git','-C',T+'/w','diff'],text=True); open(D+'/patch.diff','w').write(d)
    json.dump(dict(property=p,needs=n,what_it_breaks=w),open(D+'/meta.json','w'),indent=1)
    print(d)
finally:
    subprocess.call(['git','-C','/repo','worktree','remove','--force',T+'/w']); shutil.rmtree(T)
