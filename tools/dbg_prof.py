import sys,time,cProfile,pstats
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from engine import mach, prove, run as R, terms as T
from specs import props
name,fl,cpu,fn=sys.argv[1:5]
t=[t for t in getattr(props,fn)() if t.name==name and t.flavour==fl and str(t.cpu)==cpu][0]
P=R.program(fl); pv=prove.Prover(1)
import signal
def al(*a): raise KeyboardInterrupt
signal.signal(signal.SIGALRM,al); signal.alarm(int(sys.argv[5]) if len(sys.argv)>5 else 30)
old=pv._local_query
cnt={}
def lq(a,b,inner,pc,tmo):
    t0=time.time(); r=old(a,b,inner,pc,tmo); d=time.time()-t0
    k=(r,tmo,bool(pc)); c=cnt.setdefault(k,[0,0.0]); c[0]+=1; c[1]+=d
    if not r and len(fails)<40: fails.append((a,b,len(inner),round(d,2)))
    return r
fails=[]
pv._local_query=lq
pr=cProfile.Profile(); pr.enable()
try:
    ob,info=mach.explore(t,P,None if cpu=='None' else cpu,pv)
    for o in ob: print(o.name,o.status,o.how)
except KeyboardInterrupt: print('TIMEOUT')
pr.disable()
print(cnt, T.count(), dict(pv.stats))
for a,b,n,d in fails[:12]: print(n,d,'\n  A',T.show(a,3)[:300],'\n  B',T.show(b,3)[:300])
pstats.Stats(pr).sort_stats('cumtime').print_stats(18)
