import sys,time; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from vf.build import Builder
from vf import job, prove
oc=prove.Prover.check; oi=prove.Prover.prove_identity
def ck(self,pc,extra,feas=True):
    t=time.time(); r=oc(self,pc,extra,feas); d=time.time()-t
    if d>0.5: print('SLOW check %.1f'%d,r,feas,[repr(b)[:120] for b in pc][-4:],repr(extra)[:300])
    return r
def ci(self,pc,a,b):
    t=time.time(); r=oi(self,pc,a,b); d=time.time()-t
    if d>0.5: print('SLOW ident %.1f'%d,r,repr(a)[:200],repr(b)[:200])
    return r
prove.Prover.check=ck; prove.Prover.prove_identity=ci
class C:
    def send(self,r): self.r=r
    def close(self): pass
import shutil,os; W='/verif/.work/dbg%d'%os.getpid(); b=Builder(W)
h,e=sys.argv[1:3]
p=b.ir(h,sys.argv[3:],3)
c=C(); job.run(p,e,{},60,1,c)
r=c.r
print({k:r.get(k) for k in ('paths','obligations','discharged','incomplete','error','stats','sym_s','parse_s','total_s')})
b.close(); shutil.rmtree(W)
