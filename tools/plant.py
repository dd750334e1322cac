"""plant.py SPECFILE [--check]: SPECFILE defines SEEDS = [dict(id, prop, file|edits, demo, needs, breaks)]"""
import sys,os,subprocess,json,shutil
ns={}
exec(open(sys.argv[1]).read(),ns)
only=[a for a in sys.argv[2:] if not a.startswith('--')]
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(cmd,cwd,env=None,timeout=300):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
        return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 'timeout',''
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    wt='/tmp/x/wt_'+s['id']
    shutil.rmtree(wt,ignore_errors=True); shutil.copytree('/repo',wt,symlinks=True)
    ok=True
    for f,old,new in s['edits']:
        p=os.path.join(wt,f); t=open(p).read()
        if t.count(old)!=1: print(s['id'],'EDIT COUNT',t.count(old),f); ok=False; break
        open(p,'w').write(t.replace(old,new))
    if not ok: shutil.rmtree(wt); continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    rc,diff=sh(['git','diff'],wt)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(s['demo'].strip()+'\n')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 TZ=UTC
exec /opt/venv/bin/python "$here/demo.py"
''')
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    env={'PYTHONPATH':wt,'PYTHONDONTWRITEBYTECODE':'1','PYTHONHASHSEED':'0','LANG':'C.UTF-8','TZ':'UTC'}
    ids=[t.replace('.','/',1).replace('::','.py::',1) for t in stable]
    rc,out=sh(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','-x']+ids,wt,env)
    tests='tests-ok' if rc==0 else 'TESTS-FAIL '+out[-600:]
    r0,o0=sh(['bash',d+'/demo.sh'],'/repo'); r1,o1=sh(['bash',d+'/demo.sh'],wt)
    print(s['id'],tests,'demo clean',r0,'patched',r1, '' if r0==0 and r1 not in (0,'timeout') else 'BAD-DEMO '+(o0 if r0 else o1)[-400:])
    if '--check' in sys.argv:
        rc,o=sh(['python3-vt','check.py',s['prop'],'quick'],'/verif',{'VERIF_REPO':wt,'VERIF_SEED':'1'},900)
        print('   check ->',rc,'CAUGHT' if rc==1 and 'VIOLATION property=%s '%s['prop'] in o else 'MISSED', o.strip().split('\n')[0][:160] if rc else o.strip()[-160:])
    shutil.rmtree(wt)
