"""One symbolic run of one harness entry (in its own process)."""
import os
import sys
import time
import traceback
from fractions import Fraction


def f32(x):
    import struct
    try:
        return Fraction(struct.unpack('<f', struct.pack('<f', float(x)))[0])
    except OverflowError:
        return Fraction(x)


def candidates(p, f, seed, n=8, tol=2e-2, is_replay_ok=None):
    """concrete inputs that refute the obligation, checked with exact functions (mpmath)"""
    from . import norm
    from .terms import RT, IT, b_not, BT
    import mpmath
    pc, goal, kind = f['pc'], f['goal'], f['kind']
    hint = [t for _, _, t in f['inputs']]
    if pc is None:
        return []
    if kind == 'bound':
        if f['env'] is None:
            return []
        env = dict(f['env'])
        try:
            for m in p.models(pc, True, n=1, seed=seed, vars_hint=hint):
                for k, v in m.items():
                    env.setdefault(k, v)
        except Exception:
            pass
        vals = []
        for name, k, t in f['inputs']:
            if isinstance(t, IT):
                for i, _ in t.lin:
                    from .terms import IAtom
                    env.setdefault(IAtom.all[i].name, 0)
                vals.append((name, str(norm.eval_int(t, env))))
            else:
                vals.append((name, str(t) if not isinstance(t, RT) else '%.9g' % float(env.get(name, 0))))
        return [(1, vals, '')]
    ms = []
    try:
        if f.get('terms') and all(isinstance(t, (int, float)) or norm.is_closed(t) for t in f["terms"]):
            goal = False                    # no input in it: any model of the path will do
        if kind == 'problem' or goal is False:
            ms = p.models(pc, True, n=n, seed=seed, vars_hint=hint)
        else:
            ms = p.models(pc, b_not(goal), n=n, seed=seed, vars_hint=hint)
            if kind in ('close', 'le', 'lt'):
                ms += p.models(pc, True, n=n, seed=seed + 7, vars_hint=hint)
    except Exception as e:                                      # noqa
        f['note'] = 'models: %r' % (e,)
    out = []
    for m in ms:
        env = {}
        for name, k, t in f['inputs']:
            if isinstance(t, RT):
                v = m.get(name)
                env[name] = f32(v) if v is not None else Fraction(0)
            elif isinstance(t, IT):
                for i, _ in t.lin:
                    from .terms import IAtom
                    env[IAtom.all[i].name] = m.get(IAtom.all[i].name, 0)
        for k, v in m.items():
            env.setdefault(k, v)
        memo = {}
        ok = True
        try:
            for b in pc:
                if not norm.eval_bool(b, env, memo):
                    ok = False
        except Exception:
            ok = None
        score = 0
        info = ''
        if kind in ('close', 'le', 'lt') and f['terms'] is not None:
            try:
                a, b = [norm.eval_real(t, env, memo) for t in f['terms']]
                d = a - b if kind != 'close' else abs(a - b)
                score = float(d / (1 + abs(a) + abs(b)))
                info = '%s vs %s' % (mpmath.nstr(a, 8), mpmath.nstr(b, 8))
                if score <= 1e-12:
                    continue
                score = min(score, 0.5)
                # moderate values replay better
                big = max([abs(float(x)) for x in env.values()] + [1])
                if big > 1e3:
                    score *= 0.1
            except Exception:
                score = 0.25
        elif kind in ('bool', 'eqi') and isinstance(goal, BT):
            try:
                if norm.eval_bool(goal, env, memo):
                    continue
                score = 1
            except Exception:
                score = 0.1
        else:
            score = 1
        if ok is not True:
            score *= 0.01
        vals = []
        for name, k, t in f['inputs']:
            if isinstance(t, RT):
                vals.append((name, '%.9g' % float(env[name]) if abs(env[name]) < Fraction(10) ** 300 else '1e300'))
            else:
                vals.append((name, str(norm.eval_int(t, env) if isinstance(t, IT) else t)))
        out.append((score, vals, info))
    out.sort(key=lambda x: -x[0])
    seen = set()
    r = []
    for s, v, i in out:
        k = tuple(v)
        if k not in seen:
            seen.add(k)
            r.append((s, v, i))
    return r


def run(path, entry, opts, budget, seed, conn):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = dict(entry=entry, error=None)
    try:
        from . import llir, engine
        from .prove import STATS
        m = llir.Module(open(path).read())
        t1 = time.time()
        e = engine.Engine(m, seed=seed, deadline=t0 + budget, max_paths=opts.get('max_paths', 20000))
        e.opts.update(opts)
        e.run('check_' + entry)
        t2 = time.time()
        fails = []
        per = {}
        for f in e.failed:
            k = (f['label'], f.get('where', ''))
            per[k] = per.get(k, 0) + 1
            d = dict(label=f['label'], where=f.get('where', ''), kind=f['kind'], status=f['status'], cands=[])
            if f['pc'] is not None and per[k] <= 4 and time.time() < t0 + budget * 1.5 + 30:
                d['cands'] = candidates(e.p, f, seed)[:6]
                d['npc'] = len(f['pc'])
                try:
                    d['terms'] = [repr(t)[:300] for t in f['terms']] if f['terms'] else None
                except Exception:
                    pass
            fails.append(d)
        wit = []
        for pc, inputs in e.witnesses[:2 if budget < 200 else 4]:
            if time.time() > t0 + budget * 1.5 + 30:
                break
            c = candidates(e.p, dict(pc=pc, goal=False, kind='problem', inputs=inputs, terms=None), seed, n=1)
            if c and c[0][0] >= 1:
                wit.append(c[0][1])
        fs = sorted(set((m.funcs[n].pretty or n).split('(')[0] for n in e.funcs_seen
                        if not n.startswith('@check_')))
        res.update(witnesses=wit, paths=e.paths, obligations=e.obligations, discharged=e.discharged, reach=e.reach,
                   fails=fails, incomplete=e.incomplete[:10], nincomplete=len(e.incomplete), funcs=fs,
                   steps=e.steps, stats=STATS.dict(), parse_s=round(t1 - t0, 2), sym_s=round(t2 - t1, 2),
                   total_s=round(time.time() - t0, 2))
    except BaseException as ex:                                  # noqa
        res['error'] = '%r\n%s' % (ex, traceback.format_exc()[-3000:])
    conn.send(res)
    conn.close()
