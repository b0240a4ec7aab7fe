import sys; sys.path.insert(0,'/verif'); import run, subprocess, re, json, glob, os
inc=run.inc_dir(); w='/tmp/t1'; os.makedirs(w,exist_ok=True)
run.sh([run.CXX]+run.IRF+['-isystem',inc,'-I/repo/src','-I/verif/h','-I/verif/engine','/verif/tools/stdtest.cpp','-o',w+'/t1.bc'])
r=run.sh([run.CXX]+run.IRF+['-isystem',inc,'-I/repo/src','-I/verif/h','-I/verif/engine','-fno-builtin','/verif/rt/rt.cpp','-o',w+'/rt.bc'])
print(r.stdout[:2000])
objs=[]
from concurrent.futures import ThreadPoolExecutor
def mk(s):
    o=w+'/'+os.path.basename(s)+'.bc'; r=run.sh([run.CXX]+run.IRF+['-isystem',inc,'-I/repo/src',s,'-o',o]); return o
objs=list(ThreadPoolExecutor(4).map(mk,run.repo_sources()))
print(run.sh([run.LINK,w+'/t1.bc',w+'/rt.bc']+objs+['-o',w+'/all.bc']).stdout)
eng=run.build_engine()
for e in re.findall(r'void (a_\w+)\(',open('/verif/tools/stdtest.cpp').read()):
    if len(sys.argv)>1 and e not in sys.argv[1:]: continue
    r=run.sh([eng,w+'/all.bc','--out='+w+'/o','--entry='+e,'--jobs=2','--secs=30'])
    st=json.load(open(w+'/o/stats.json')); bad=set()
    for l in open(w+'/o/log.jsonl',errors='replace'):
        try: d=json.loads(l)
        except: continue
        if 'inc' in d: bad.add('INC '+d['inc'])
        if 'viol' in d: bad.add('VIOL '+d['viol']+' '+d.get('bt','')[:150])
    print(e,st['paths'],st['wall_s'],sorted(bad)[:6])
