"""check.py PROPERTY: decides one property by symbolic execution of /repo's current code and z3."""
import multiprocessing as mp
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    mp.set_start_method('forkserver')
    from vf import jobs
    from vf.runner import Report, run_cc
    prop = sys.argv[1]
    rep = Report(prop)
    thorough = rep.tier == 'thorough'
    only = sys.argv[2] if len(sys.argv) > 2 else None      # 'a&b|c': jobs whose names contain a and b, or c
    js = getattr(jobs, prop)(thorough)
    if only:
        js = [j for j in js if any(all(t in j.name for t in a.split('&')) for a in only.split('|'))]
    run_cc(rep, js)
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())
