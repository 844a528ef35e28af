#!/usr/bin/env python3
"""mk.py OUT FILE <<< 'old\n====\nnew' : writes a patch for /repo"""
import sys,subprocess,os,tempfile,shutil
out=sys.argv[1]
d=tempfile.mkdtemp(prefix='mk')
subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',d+'/w','HEAD'])
try:
    txt=sys.stdin.read()
    for blk in txt.split('\n@@@@ ')[0:]:
        blk=blk.lstrip('@ ')
        f,rest=blk.split('\n',1)
        old,new=rest.split('\n====\n')
        new=new.rstrip('\n') if not new.endswith('\n\n') else new[:-1]
        p=d+'/w/'+f.strip()
        s=open(p).read()
        assert s.count(old)==1,(f,s.count(old),old)
        s=s.replace(old,new)
        open(p,'w').write(s)
    diff=subprocess.check_output(['git','-C',d+'/w','diff'])
    os.makedirs(os.path.dirname(os.path.abspath(out)),exist_ok=True)
    open(out,'wb').write(diff)
    print(diff.decode())
finally:
    subprocess.call(['git','-C','/repo','worktree','remove','--force',d+'/w'])
    shutil.rmtree(d)
