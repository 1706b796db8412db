import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import cProfile,pstats,time
from vf import pysym,pystubs,pyjob
h,ent=sys.argv[1:3]; cfg=pyjob.parse(sys.argv[3:])
e=pysym.PyEngine(1,time.time()+60)
fn=getattr(pyjob.harness(h),ent)
old=e.p.check; oq=e.p.quick
def chk(pc,x,feas=True):
    t=time.time(); r=old(pc,x,feas); d=time.time()-t
    if d>.5: print('CHECK %.1f %s'%(d,r), repr(x)[:300]); import traceback; print(''.join(l for l in traceback.format_stack(limit=14) if 'distributions' in l or 'harness' in l)[-700:])
    return r
e.p.check=chk
op=e.p.prove
def prv(pc,g):
    t=time.time(); r=op(pc,g); print('PROVE %.1f %s'%(time.time()-t,r)); return r
e.p.prove=prv
def one():
    v=pystubs.SymV(e); v.make_loader(); fn(v,cfg)
pr=cProfile.Profile(); pr.enable(); e.run(one); pr.disable()
pstats.Stats(pr).sort_stats('cumtime').print_stats(18)
print(e.paths,e.obligations,e.discharged,e.incomplete,[ (f['label'],f['where']) for f in e.failed])
