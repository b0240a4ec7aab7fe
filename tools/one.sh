#!/bin/bash
# tools/one.sh C10 entry [secs]: runs one entry with slow query trace (debugging aid)
cd /verif; VERIF_KEEP=1 true
python3 - "$@" <<'P'
import sys; sys.argv=['x']+sys.argv[1:]
sys.path.insert(0,'/verif'); import run, checks, os, subprocess
pid=sys.argv[1]; e=sys.argv[2]; secs=sys.argv[3] if len(sys.argv)>3 else '60'
ck=checks.CHECKS[pid]
inc=run.inc_dir(); hdrh=run.fhash(run.repo_headers())+run.fhash(__import__('glob').glob(inc+'/bits/*')); 
defs=['-DTIER_THOROUGH=%d'%(os.environ.get('VERIF_TIER')=='thorough')]+ck.get('defs',[])
w='/tmp/one'; os.makedirs(w,exist_ok=True)
hh=run.fhash(__import__('glob').glob('/verif/h/*.h')+['/verif/engine/sym.h'])
os.makedirs('/verif/build/obj',exist_ok=True)
def mk(s,extra,mod):
    fl=run.IRF+['-isystem',inc]; k=run.fhash([s],' '.join(fl+extra)+hdrh+(hh if mod else ''))
    o='/verif/build/obj/'+k+'.bc'
    return run.ensure(o,[run.CXX]+fl+extra+['-I/repo/src','-I/verif/h','-I/verif/engine',s,'-o','@OUT@'],s)
j=[run.pool.submit(mk,'/verif/h/'+ck['harness'],defs,True)]+[run.pool.submit(mk,s,ck.get('ubsan',[]),False) for s in run.repo_sources()]+[run.pool.submit(mk,'/verif/rt/rt.cpp',['-fno-builtin'],False)]
b=[x.result() for x in j]; eng=run.build_engine()
subprocess.run([run.LINK]+b+['-o',w+'/all.bc'],check=True)
r=subprocess.run([eng,w+'/all.bc','--out='+w+'/o','--entry='+e,'--jobs='+os.environ.get('JOBS','8'),'--secs='+secs])
P
head -c 1500 /tmp/one/o/log.jsonl; echo; cut -c1-500 /tmp/one/o/stats.json | head -2
