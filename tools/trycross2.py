import sys,os; sys.path.insert(0,'/verif')
import multiprocessing as mp
mp.set_start_method('fork')
from vf.runner import *
def main():
    rep=Report('TST')
    jobs=[CrossJob(sys.argv[1], e, [f for f in sys.argv[3:] if f[0]=='-'], 'pycross.py', e, [f for f in sys.argv[3:] if f[0]!='-'], budget=90) for e in sys.argv[2].split(',')]
    run_cc(rep,jobs)
    for j in rep.jobs: print({k:j.get(k) for k in ('name','paths','obligations','discharged','seconds','error')}, j.get('incomplete'))
    print(rep.finish())
main()
