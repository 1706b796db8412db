"""mutcheck.py PROPERTY [FILTER]: the symbolic part of a check only (nothing is replayed): exit 1 if some obligation is refuted."""
import multiprocessing as mp
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    mp.set_start_method('forkserver')
    from vf import jobs, runner
    out = []
    runner.witness = lambda *a: None
    runner.settle = lambda rep, b, todo: out.extend(f for j, f in todo)
    rep = runner.Report(sys.argv[1])
    rep.violation = lambda *a: None
    js = getattr(jobs, sys.argv[1])(False)
    if len(sys.argv) > 2:
        js = [j for j in js if any(all(t in j.name for t in a.split('&')) for a in sys.argv[2].split('|'))]
    runner.run_cc(rep, js, 4)
    for e in rep.errors:
        print('ERROR error: ' + e[:300])
    if rep.errors:
        return 2
    bad = [f for f in out if f['status'] == 'refuted' or f['cands']]
    print('%d unproved, %d refuted of %d obligations' % (len(rep.unproved) + len(out) - len(bad), len(bad), rep.obligations))
    for f in bad[:3]:
        print('  ' + f['label'], f.get('where', '')[:100])
    for u in rep.unproved[:3]:
        print('  unproved ' + u[:300])
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
