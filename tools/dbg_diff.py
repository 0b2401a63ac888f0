import sys,time,collections
sys.path.insert(0,'/verif')
from engine import build, execu, prove, mach, run as R, terms as T
from specs import props
name,fl,cpu=sys.argv[1:4]
mode=sys.argv[4] if len(sys.argv)>4 else 'diff'
ts=[t for t in getattr(props,sys.argv[5] if len(sys.argv)>5 else 'c01')() if t.name==name and t.flavour==fl and str(t.cpu)==cpu]
t=ts[0]
P=R.program(fl); pv=prove.Prover(1)
def pr(pairs,pc=(),hard=True,known=None):
    if known: pairs=pv.simplify(pairs,known)
    bad=[(a,b) for a,b in pairs if a is not b]
    print(len(bad),'non identical of',len(pairs), 'pc', [T.show(c,3) for c in pc])
    if not bad: return [('proved','x')]*len(pairs)
    roots=[x for p in bad for x in p]
    for a,b in bad[:1]: print('A',T.show(a,4)[:400]); print('B',T.show(b,4)[:400])
    ev=T.Evaluator(pv.samples.env,pv.samples.n)
    topo=T.topo(roots)
    vals=ev.run(topo)
    cl=collections.OrderedDict()
    for x,v in zip(topo,vals):
        if not isinstance(v[0],tuple): cl.setdefault((x.w,tuple(v)),[]).append(x)
    n=0
    for k,xs in sorted(cl.items(), key=lambda k:max(x.id for x in k[1])):
        if len(xs)>1:
            for x in xs[:3]: print('   ',x.id,T.show(x,4)[:300])
            print(); n+=1
            if n>5: break
    bad=[i for i,(a,b) in enumerate(pairs) if a is not b]
    return [('proved','x')]*len(pairs)
if mode=='diff': pv.prove=pr
t0=time.time()
ob,info=mach.explore(t,P,None if cpu=='None' else cpu,pv)
for o in ob[:30]: print(o.name,o.status,o.how,o.detail[:200],o.goals)
print(time.time()-t0,info['paths'],info['steps'],T.count(),pv.solver_s,dict(pv.stats))
