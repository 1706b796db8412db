import sys,os; sys.path.insert(0,'/verif')
import multiprocessing as mp
mp.set_start_method('fork')
from vf.runner import *
from vf.jobs import model_flags
def main():
    rep=Report('TST')
    ents=sys.argv[1].split(','); ms=sys.argv[2].split(','); fl=sys.argv[3]
    jobs=[]
    for m in ms:
        d = [None] if m[:3] != 'niw' else [int(m[3:])]
        for e in ents:
            mm = m.rstrip('0123456789')
            f = model_flags(mm.upper(), False) + (['-DNIW_FIX=%d' % d[0]] if d[0] else [])
            jobs.append(CrossJob('cross.cc', e, f, 'pycross.py', e, ['model='+mm,'flavour='+fl], budget=90))
    run_cc(rep,jobs)
    for j in rep.jobs: print({k:j.get(k) for k in ('name','paths','obligations','discharged','seconds','error')}, j.get('incomplete'))
    print(rep.finish())
main()
