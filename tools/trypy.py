import sys,os; sys.path.insert(0,'/verif')
import multiprocessing as mp
mp.set_start_method('fork')
from vf.runner import *
def main():
    rep=Report('TST')
    h=sys.argv[1]; ents=sys.argv[2].split(','); flags=[f for f in sys.argv[3:] if not f.startswith('@')]
    models=[f[1:].split(',') for f in sys.argv[3:] if f.startswith('@')]
    jobs=[]
    for e in ents:
        for m in (models[0] if models else ['']):
            jobs.append(PyJob(h,e,(['model='+m] if m else [])+flags,budget=60))
    run_cc(rep,jobs)
    for j in rep.jobs: print({k:j.get(k) for k in ('name','paths','obligations','discharged','seconds','error')}, j.get('incomplete'))
    print(rep.finish())
main()
