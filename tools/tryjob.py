import sys,os; sys.path.insert(0,'/verif')
import multiprocessing as mp
mp.set_start_method('fork')
from vf.runner import *
def main():
    rep=Report('TST')
    jobs=[]
    h=sys.argv[1]; ents=sys.argv[2].split(','); flags=sys.argv[3:]
    if ents==['all']:
        import re
        ents=re.findall(r'^ENTRY\((\w+)\)', open('/verif/harness/'+h).read(), re.M)
    models=[f for f in flags if f.startswith('@')]
    opts={f[1:]:1 for f in flags if f.startswith('+')}
    flags=[f for f in flags if not f.startswith('+')]
    flags=[f for f in flags if not f.startswith('@')]
    if models:
        for m in models[0][1:].split(','):
            for e in ents: jobs.append(Job(h,e,['-DMODEL='+m]+(['-DIS_DPD'] if m=='DPD' else [])+(['-DM_NIW'] if m=='NIW' else [])+flags,budget=60,opts=opts))
    else:
        for e in ents: jobs.append(Job(h,e,flags,budget=60,opts=opts))
    run_cc(rep,jobs)
    for j in rep.jobs: print({k:j.get(k) for k in ('name','paths','obligations','discharged','seconds','error')}, j.get('incomplete'))
    print(rep.finish())
main()
