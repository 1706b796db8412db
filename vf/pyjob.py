"""A symbolic run of a Python harness entry, and its concrete replay.

python3-vt -m vf.pyjob HARNESS ENTRY VALUES k=v ...    replays with the real libraries
"""
import importlib.util
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def harness(name):
    spec = importlib.util.spec_from_file_location('vh_' + name[:-3], os.path.join(ROOT, 'harness', name))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def parse(flags):
    out = {}
    for f in flags:
        k, _, v = f.partition('=')
        out[k] = v
    return out


def run(hname, entry, flags, opts, budget, seed, conn):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = dict(entry=entry, error=None)
    try:
        from . import pysym, pystubs
        from .prove import STATS
        from .job import candidates
        fn = getattr(harness(hname), entry)
        cfg = parse(flags)
        e = pysym.PyEngine(seed, t0 + budget, opts.get('max_paths', 20000))
        used = set()
        cache = {}

        def one():
            v = pystubs.SymV(e)
            v.make_loader()
            try:
                fn(v, cfg)
            finally:
                used.update(v.loader.used)
        e.run(one)
        t2 = time.time()
        fails = pack(e, seed, t0, budget, candidates)
        wit = []
        for pc, inputs in e.witnesses[:2 if budget < 200 else 4]:
            if time.time() > t0 + budget * 1.5 + 30:
                break
            c = candidates(e.p, dict(pc=pc, goal=False, kind='problem', inputs=inputs, terms=None), seed, n=1)
            if c and c[0][0] >= 1:
                wit.append(c[0][1])
        res.update(witnesses=wit, paths=e.paths, obligations=e.obligations, discharged=e.discharged, reach=e.reach,
                   fails=fails, incomplete=e.incomplete[:10], nincomplete=len(e.incomplete),
                   funcs=sorted('distributions::py::' + u for u in used), steps=e.steps, stats=STATS.dict(),
                   sym_s=round(t2 - t0, 2), total_s=round(time.time() - t0, 2))
    except BaseException as ex:                                  # noqa
        res['error'] = '%r\n%s' % (ex, traceback.format_exc()[-3000:])
    conn.send(res)
    conn.close()


def run_cross(path, entry, opts, pyh, pyentry, flags, budget, seed, conn):
    """the C++ half symbolically, then on each of its paths the Python half with the values it exported"""
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = dict(entry=entry, error=None)
    try:
        from . import llir, engine, pysym, pystubs
        from .prove import STATS
        from .job import candidates
        m = llir.Module(open(path).read())
        c = engine.Engine(m, seed=seed, deadline=t0 + budget * .6, max_paths=opts.get('max_paths', 20000))
        c.opts.update(opts)
        c.opts['collect'] = got = []
        c.run('check_' + entry)
        fn = getattr(harness(pyh), pyentry)
        cfg = parse(flags)
        used, fails, wit, incomplete = set(), pack(c, seed, t0, budget, candidates), [], list(c.incomplete)
        tot = dict(obligations=c.obligations, discharged=c.discharged, steps=c.steps)
        paths = dict(ok=0, assume=c.paths['assume'], error=c.paths['error'])
        for n, (pc, inputs, exports) in enumerate(got):
            e = pysym.PyEngine(seed, t0 + budget, opts.get('max_paths', 20000), base_pc=pc, given=inputs)
            e.exports = exports

            def one():
                v = pystubs.SymV(e)
                v.make_loader()
                try:
                    fn(v, cfg)
                finally:
                    used.update(v.loader.used)
            e.run(one)
            for k in tot:
                tot[k] += getattr(e, k)
            for k in paths:
                paths[k] += e.paths[k]
            incomplete += e.incomplete
            if len(fails) < 12:
                fails += pack(e, seed, t0, budget, candidates)
            if n & (n - 1) == 0 and e.witnesses and len(wit) < 3 and not fails:
                pc, inputs = e.witnesses[0]
                w = candidates(e.p, dict(pc=pc, goal=False, kind='problem', inputs=inputs, terms=None), seed, n=1)
                if w and w[0][0] >= 1:
                    wit.append(w[0][1])
        fs = sorted(set((m.funcs[n].pretty or n).split('(')[0] for n in c.funcs_seen if not n.startswith('@check_')))
        res.update(witnesses=wit, paths=paths, reach=c.reach, fails=fails, incomplete=incomplete[:10],
                   nincomplete=len(incomplete), funcs=fs + sorted('distributions::py::' + u for u in used),
                   stats=STATS.dict(), total_s=round(time.time() - t0, 2), **tot)
    except BaseException as ex:                                  # noqa
        res['error'] = '%r\n%s' % (ex, traceback.format_exc()[-3000:])
    conn.send(res)
    conn.close()


def pack(e, seed, t0, budget, candidates):
    fails = []
    per = {}
    for f in e.failed:
        k = (f['label'], f.get('where', ''))
        per[k] = per.get(k, 0) + 1
        d = dict(label=f['label'], where=f.get('where', ''), kind=f['kind'], status=f['status'], cands=[])
        if f['pc'] is not None and per[k] <= 4 and time.time() < t0 + budget * 1.5 + 30:
            d['cands'] = candidates(e.p, f, seed)[:6]
            try:
                d['terms'] = [repr(t)[:300] for t in f['terms']] if f['terms'] else None
            except Exception:
                pass
        fails.append(d)
    return fails


def replay_main(argv):
    from . import pystubs
    from .pysym import PathStop
    hname, entry, path = argv[:3]
    vals = []
    for l in open(path):
        if not l.startswith('#') and l.strip():
            vals.append(l.split()[-1])
    v = pystubs.RealV(vals, tol=float(os.environ.get('V_TOL', '1e-6')))
    if os.environ.get('V_EXPORTS'):
        v.exports = {}
        for l in open(os.environ['V_EXPORTS']):
            w = l.split()
            if len(w) == 4 and w[0] == 'EXPORT':
                v.exports[w[1]] = (w[2], w[3])
    v.make_loader()
    try:
        getattr(harness(hname), entry)(v, parse(argv[3:]))
    except PathStop as e:
        if str(e) in ('assume', 'exhausted'):
            return 1 if v.fails else 3
    except Exception as e:
        v.say('FAIL error raised: %s %s' % (type(e).__name__, e))
        traceback.print_exc(limit=-3)
        return 1
    v.say('DONE fails' if v.fails else 'DONE ok')
    return 1 if v.fails else 0


if __name__ == '__main__':
    sys.exit(replay_main(sys.argv[1:]))
