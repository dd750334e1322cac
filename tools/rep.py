import sys,collections; sys.path.insert(0,'/verif/lib')
import tlc,drv,random,time,json
t0=time.time()
mod,dom=sys.argv[1:3]; cfg=sys.argv[3] if len(sys.argv)>3 else None
n=int(sys.argv[4]) if len(sys.argv)>4 else 0
r,g=tlc.tlc_graph(mod,cfg)
print('tlc',r.states,r.distinct,len(g.edges),round(time.time()-t0,1))
w=g.walks(random.Random(1),maxlen=int(__import__("os").environ.get("ML","40")),extra_random=n)
res=drv.replay(dom,[g.steps(p) for p in w])
print(len(w),res['walks'],res['steps'],len(res['mismatches']),(res['crash'] or '')[-3000:],round(time.time()-t0,1), res['ops'])
c=collections.Counter()
for m in res['mismatches']:
    k=json.dumps([m['action'].get(x) for x in ('op','p','door','v')])+' '+m['why']
    c[k]+=1
for k,v in c.most_common(12): print(v,k[:300])
if res['mismatches']:
    m=min(res['mismatches'],key=lambda m:len(m['history']))
    print(m['why']); 
    for h in m['history'][-12:]: print('   ',json.dumps(h)[:220])
    print(json.dumps(m['prev'])[:600])
