import os,sys,subprocess,json
DEMO='''#!/bin/bash
# exit 0: the property holds; anything else: it does not.  Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
OUT=$(mktemp /tmp/demo_XXXXXX) || exit 3
g++ -std=c++20 %s -w -pthread -I. -I_build/%s "$D/demo.cpp" macoro/thread_pool.cpp macoro/detail/stop_*.cpp -o "$OUT" || { rm -f "$OUT"; exit 3; }
timeout %d "$OUT"; R=$?
rm -f "$OUT"
exit $R
'''
def seed(id, prop, needs, breaks, file, old, new, demo, flags="-O1 -g -fsanitize=address,undefined", cfg="own_stop", to=60, count=1, extra={}):
    d=os.environ.get('VERIF_ROOT','/verif')+'/seeded/'+id; os.makedirs(d,exist_ok=True)
    edits = [(file,old,new)] if isinstance(file,str) else file
    for f,o,n in edits:
        p=os.environ.get('VERIF_REPO','/repo')+'/macoro/'+f; s=open(p).read(); assert s.count(o)>=1,(id,"old text missing",f); assert s.count(o)==count,(id,"ambiguous",s.count(o)); open(p,'w').write(s.replace(o,n))
    diff=subprocess.run(['git','-C',os.environ.get('VERIF_REPO','/repo'),'diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C',os.environ.get('VERIF_REPO','/repo'),'checkout','-q','--','.'])
    # the final check counts only changes of original lines.
    allbase=set()
    for f in {e[0] for e in edits}: allbase|=set(l.strip() for l in subprocess.run(['git','-C',os.environ.get('VERIF_REPO','/repo'),'show','8cb0b80:macoro/'+f],capture_output=True,text=True).stdout.splitlines())
    cur=[l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    if not any(l in allbase and len(l)>3 for l in cur): print('WARNING',id,'changes no original line')
    if any(l not in allbase for l in cur): print('NOTE',id,'also changes lines of later commits')
    open(d+'/patch.diff','w').write(diff); open(d+'/demo.cpp','w').write(demo); open(d+'/demo.sh','w').write(DEMO%(flags,cfg,to))
    for f,t in extra.items(): open(d+'/'+f,'w').write(t)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
