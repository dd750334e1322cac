import sys,collections; sys.path.insert(0,'/verif/lib')
import tlc,drv,random,time,json
t0=time.time()
mod,dom,cfg,num,depth=sys.argv[1:6]
r,walks=tlc.simulate_walks(mod,cfg,int(num),int(depth),int(sys.argv[6]) if len(sys.argv)>6 else 1)
print(len(walks),sum(map(len,walks)),round(time.time()-t0,1))
res=drv.replay(dom,walks)
print(res['walks'],res['steps'],len(res['mismatches']),(res['crash'] or '')[-3000:],round(time.time()-t0,1), res['ops'])
c=collections.Counter(json.dumps([m['action'].get(x) for x in ('op','p','door','v')])+' '+m['why'] for m in res['mismatches'])
for k,v in c.most_common(8): print(v,k[:400])
if res['mismatches']:
    m=min(res['mismatches'],key=lambda m:len(m['history']))
    for h in m['history'][-12:]: print('   ',json.dumps(h)[:300])
    print(m['why'][:1500])
