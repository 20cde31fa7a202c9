#!/usr/bin/env python3
"""seed.py ID PROP FILE < JSON {edits:[[file,old,new,(nth)]], needs, breaks, demo(py text or sh)}: plant, confirm, keep or reject."""
import sys, json, subprocess, os
R='/repo'; V='/verif'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def stable():
    r=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json')
    o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
    return set(b['stable'])-set(o['passed']) if r.returncode==0 or o['passed'] else {'build: '+r.stderr[-400:]+r.stdout[-300:]}
def plant(sid,prop,edits,needs,breaks,demo):
    r_=_plant(sid,prop,edits,needs,breaks,demo)
    if not r_: sh('rm -rf %s/seeded/%s'%(V,sid))
    return r_
def _plant(sid,prop,edits,needs,breaks,demo):
    assert sh('git -C /repo status --porcelain').stdout.strip()=='' , 'dirty'
    d='%s/seeded/%s'%(V,sid)
    try:
        for e in edits:
            f,old,new=e[:3]; nth=e[3] if len(e)>3 else None
            b=open(R+'/'+f,encoding='latin-1',newline='').read()
            if '\r\n' in b: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
            n=b.count(old)
            assert n>=1,(sid,f,'not found',old)
            if nth is None: assert n==1,(sid,f,n,'occurrences'); b=b.replace(old,new)
            else:
                p=-1
                for _ in range(nth): p=b.index(old,p+1)
                b=b[:p]+new+b[p+len(old):]
            open(R+'/'+f,'w',encoding='latin-1',newline='').write(b)
        diff=subprocess.run('git -C /repo diff',shell=True,capture_output=True).stdout
        os.makedirs(d,exist_ok=True); open(d+'/patch.diff','wb').write(diff)
        miss=stable()
        if miss: print(sid,'REJECT: tests',list(miss)[:5]); return False
        write_demo(d,demo)
        r=sh('bash %s/demo.sh'%d,cwd=R); bad=r.returncode
        if bad==0: print(sid,'REJECT: demo passes with patch',r.stdout[-300:]); return False
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    r=sh('bash %s/demo.sh'%d,cwd=R)
    if r.returncode!=0: print(sid,'REJECT: demo fails on clean',r.stdout[-500:],r.stderr[-800:]); return False
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    # lines must be original
    print(sid,'OK'); return True
def write_demo(d,demo):
    if demo.startswith('#!'):
        open(d+'/demo.sh','w').write(demo); return
    if demo.startswith('//'):
        open(d+'/demo.cpp','w').write(demo)
        open(d+'/demo.sh','w').write('''#!/bin/bash
# builds the program beside this file with the library sources of /repo; exit 0 = property holds
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); S=$PWD/symbolics
I="-I$S/include -I$S/functions/include -I$S/graph/include -I$S/printer/include -I$S/writer/include"
ls $S/*.cpp $S/functions/*.cpp $S/graph/*.cpp $S/printer/*.cpp $S/writer/*.cpp | grep -v '/symbolics/Neg.cpp' | xargs -P8 -I{} sh -c 'g++ -O0 -fpermissive -w '"$I"' -c {} -o '"$w"'/$(echo {} | md5sum | cut -c1-12).o'
g++ -O0 -fpermissive -w $I "$d/demo.cpp" $w/*.o -o $w/demo && (cd $w && timeout 100 ./demo); rc=$?
rm -rf "$w"; exit $rc
'''); return
    open(d+'/demo.py','w').write(demo)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# runs the script beside this file against /repo's built package; exit 0 = property holds
d=$(cd "$(dirname "$0")" && pwd)
export QT_QPA_PLATFORM=offscreen MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec timeout 200 /opt/pymbs-venv/bin/python "$d/demo.py"
''')
