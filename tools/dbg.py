import sys; sys.path.insert(0,'/verif')
from vf.build import Builder
from vf import job
class C:
    def send(self,r): self.r=r
    def close(self): pass
import shutil,os; W='/verif/.work/dbg%d'%os.getpid(); b=Builder(W)
h,e=sys.argv[1:3]
p=b.ir(h,sys.argv[3:],3)
c=C(); job.run(p,e,{},60,1,c)
r=c.r
for f in r.get('fails',[]): print(f['label'],f['where'],f['kind'],f['status'],f.get('npc'),f.get('terms')); print('    ',f['cands'])
print({k:r.get(k) for k in ('paths','obligations','discharged','incomplete','error','stats','sym_s','parse_s','total_s')})
b.close(); shutil.rmtree(W)
