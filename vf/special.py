"""Error bounds of the table and polynomial approximations (C17, C18).

An obligation is  |got - fn(x)| <= a + r |fn(x)|  for every value of the free integer variable (a mantissa, a count)
that the path condition allows.  got is the term the executor obtained from the code; fn is a mathematical function
about which z3 knows nothing, so its range is cut into pieces and on each piece fn is replaced by a polynomial with a
rigorous remainder (Taylor's theorem for lgamma and differences of it; chord and tangent for log, which is concave).
z3 then decides the inequality for all reals of the piece (and all exponents, for log); a piece it refutes is cut in
two until the refutation holds at an actual float."""
from fractions import Fraction
import math
import time
import mpmath
import z3
from .terms import *
from . import norm
from .norm import rf, ATOMS
from .prove import STATS, zfrac, zi, zi_atom

FN = {0: 'log', 1: 'lgamma', 2: 'lgamma_nu', 3: 'exp'}


def ref_term(fn, x):
    if fn == 0:
        return r_fn('log', x)
    if fn == 1:
        return r_fn('lgamma', x)
    if fn == 3:
        return r_fn('exp', x)
    h = r_mul(Fraction(1, 2), x)
    return r_sub(r_fn('lgamma', r_add(h, Fraction(1, 2))), r_fn('lgamma', h))


def frac(v, up):
    """a rational within 1e-30 (relatively) of the mpf v, rounded outward"""
    if v == 0:
        return Fraction(0)
    s = 110 - int(mpmath.floor(mpmath.log(abs(v), 2)))
    n = int(mpmath.floor(v * mpmath.mpf(2) ** s)) + (2 if up else -1)
    return Fraction(n) / Fraction(2) ** s


def near(v):
    return frac(v, True)


def mpf(f):
    return mpmath.mpf(f.numerator) / f.denominator


def derivs(fn, a, left, n):
    """Taylor coefficients at a (orders 0..n-1) and a bound on |f^(n)|/n! right of left"""
    psi = lambda k, y: mpmath.psi(k, y)
    f = mpmath.mpf(1)
    cs = []
    if fn == 1:
        cs.append(mpmath.re(mpmath.loggamma(a)))
        for k in range(1, n):
            f *= k
            cs.append(psi(k - 1, a) / f)
        return cs, abs(psi(n - 1, left)) / (f * n)
    h = a / 2
    cs.append(mpmath.loggamma(h + mpmath.mpf(1) / 2) - mpmath.loggamma(h))
    for k in range(1, n):
        f *= k
        cs.append((psi(k - 1, h + mpmath.mpf(1) / 2) - psi(k - 1, h)) / (f * mpmath.mpf(2) ** k))
    f *= n
    l = left / 2
    # |psi^(n-1)| decreases, so the difference is below psi^(n-1)(l)
    return cs, abs(psi(n - 1, l)) / (f * mpmath.mpf(2) ** n)


def vars_of(t, out, seen):
    if isinstance(t, IT):
        for i, _ in t.lin:
            a = IAtom.all[i]
            if a.kind == 'var':
                out.add(i)
            else:
                for x in a.args:
                    vars_of(x, out, seen)
    elif isinstance(t, (RT, BT)):
        if t.id in seen if isinstance(t, RT) else t.key in seen:
            return
        seen.add(t.id if isinstance(t, RT) else t.key)
        for x in t.args:
            vars_of(x, out, seen)


def int_range(p, pc, it):
    """smallest and largest value of an integer variable under the path condition"""
    p.sync(pc)
    lo, hi = it.lo, it.hi

    def feas(a, b):
        return p.check(pc, b_and(i_le(a, it), i_le(it, b))) != 'unsat'
    if not feas(lo, hi):
        return None
    l, h = lo, hi
    while l < h:
        m = (l + h) // 2
        if feas(lo, m):
            h = m
        else:
            l = m + 1
    low = l
    l, h = low, hi
    while l < h:
        m = (l + h + 1) // 2
        if feas(m, hi):
            l = m
        else:
            h = m - 1
    return low, l


class Refuted(Exception):
    def __init__(self, env, info):
        self.env, self.info = env, info


def decide(p, pc, got, fn, x, ab, rel, deadline=None):
    """'proved' | 'refuted' (with environment) | 'unknown' (with reason)"""
    if isinstance(got, NonFinite) or isinstance(x, NonFinite):
        if p.check(pc, True) == 'unsat':
            return 'proved', None
        return 'refuted', {}
    ref = ref_term(fn, x)
    if isinstance(got, Fraction) and isinstance(ref, Fraction):
        return ('proved', None) if abs(got - ref) <= ab + rel * abs(ref) else ('refuted', {})
    d = norm.rf_add(rf(got), norm.rf_scale(rf(ref), -1))
    if not d.num:
        STATS.queries += 1
        STATS.unsat += 1
        return 'proved', None
    vs = set()
    seen = set()
    vars_of(got, vs, seen)
    vars_of(x, vs, seen)
    try:
        if not vs and not any(True for _ in real_vars(got)):
            return closed(p, got, ref, ab, rel)
        if fn == 0 and id(x) in BITS or (isinstance(x, RT) and x.id in BITS and fn == 0):
            return log_pieces(p, pc, got, x, ab, rel, deadline)
        if len(vs) == 1 and fn in (1, 2):
            return poly_pieces(p, pc, got, fn, x, ab, rel, IAtom.all[vs.pop()], deadline)
    except Refuted as r:
        return 'refuted', r.env
    return 'unknown', 'no procedure for this form'


BITS = {}     # id of a real term -> (exponent term, mantissa term)


def real_vars(t):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if not isinstance(u, RT) or u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'var':
            yield u
        st.extend(u.args)


def closed(p, got, ref, ab, rel):
    g, r = norm.eval_real(got, {}), norm.eval_real(ref, {})
    return z3_check_closed(near(g), near(r), ab, rel)


def z3_check_closed(g, r, ab, rel):
    s = z3.Solver()
    e, f = z3.Reals('got ref')
    slack = Fraction(1, 10 ** 25) * (1 + abs(g) + abs(r))
    s.add(e >= zfrac(g - slack), e <= zfrac(g + slack), f >= zfrac(r - slack), f <= zfrac(r + slack))
    b = zfrac(ab + rel * max(abs(r) - slack, 0))
    s.add(z3.Or(e - f > b, f - e > b))
    t = time.time()
    c = s.check()
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    if c == z3.unsat:
        STATS.unsat += 1
        return 'proved', None
    STATS.sat += 1
    return 'refuted', {}


def query(s):
    t = time.time()
    c = s.check()
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    if c == z3.unsat:
        STATS.unsat += 1
    elif c == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return c


def exact_violation(got, ref, name, v, ab, rel):
    env = {name: v}
    memo = {}
    g, r = norm.eval_real(got, env, memo), norm.eval_real(ref, env, memo)
    return abs(g - r) > mpf(ab) + mpf(rel) * abs(r)


def poly_pieces(p, pc, got, fn, x, ab, rel, var, deadline):
    g, xx = rf(got), rf(x)
    if g.den or xx.den:
        return 'unknown', 'not a polynomial'
    iv = IT_of(var)
    rng = int_range(p, pc, iv)
    if rng is None:
        return 'proved', None
    ai = norm.int_atom(iv) if False else None
    # got and x as univariate polynomials of the variable
    cs = univariate(g.num, var)
    xs = univariate(xx.num, var)
    if cs is None or xs is None or len(xs) > 2:
        return 'unknown', 'not a univariate polynomial'
    alpha, beta = xs[0], (xs[1] if len(xs) > 1 else Fraction(0))
    ref = ref_term(fn, x)
    lo, hi = rng
    n0 = 8 if hi - lo > 64 else 1
    work = []
    for k in range(n0):
        a = lo + (hi - lo + 1) * k // n0
        b = lo + (hi - lo + 1) * (k + 1) // n0 - 1
        if a <= b:
            work.append((a, b))
    n = 0
    while work:
        a, b = work.pop()
        n += 1
        if deadline and time.time() > deadline or n > 4000:
            return 'unknown', 'out of time after %d pieces' % n
        if a == b:
            # a single value: evaluate exactly
            if exact_violation(got, ref, var.name, a, ab, rel):
                raise Refuted({var.name: a}, '')
            continue
        u0, h = Fraction(a + b, 2), Fraction(b - a, 2)
        r = piece(cs, fn, alpha + beta * u0, beta * h, u0, h, ab, rel)
        if r == 'proved':
            continue
        for v in {a, b, (a + b) // 2} | ({min(b, max(a, int(r)))} if r is not None else set()):
            if exact_violation(got, ref, var.name, v, ab, rel):
                raise Refuted({var.name: v}, '')
        m = (a + b) // 2
        work.append((a, m))
        work.append((m + 1, b))
    return 'proved', None


def IT_of(a):
    return mk_lin({a.idx: 1}, 0)


def univariate(poly, var):
    cs = {}
    for m, c in poly.items():
        if not m:
            cs[0] = cs.get(0, 0) + c
            continue
        if len(m) != 1 or m[0][1] < 0:
            return None
        a = ATOMS[m[0][0]]
        if a.kind != 'int' or a.payload is not var:
            return None
        cs[m[0][1]] = cs.get(m[0][1], 0) + c
    return [Fraction(cs.get(k, 0)) for k in range(max(cs) + 1)] if cs else [Fraction(0)]


def shift(cs, u0, h):
    """coefficients in t where u = u0 + h t"""
    out = [Fraction(0)] * len(cs)
    for k, c in enumerate(cs):
        for j in range(k + 1):
            out[j] += c * math.comb(k, j) * u0 ** (k - j) * h ** j
    return out


def piece(cs, fn, mid, half, u0, h, ab, rel):
    """'proved', or a value of u where the bound may fail (None when unknown)"""
    half = abs(half)
    left = mid - half
    K = 9
    with mpmath.workdps(60):
        tc, rem = derivs(fn, mpf(mid), mpf(left), K)
        rem = frac(rem * mpf(half) ** K, True)
        ref = [frac(c * mpf(half) ** k, True) for k, c in enumerate(tc)]
    slack = Fraction(1, 10 ** 25) * sum(abs(c) for c in ref)
    rem += slack
    got = shift(cs, u0, h)
    n = max(len(got), len(ref))
    got += [Fraction(0)] * (n - len(got))
    ref += [Fraction(0)] * (n - len(ref))
    diff = [round_frac(a - b) for a, b in zip(got, ref)]
    slack2 = Fraction(1, 10 ** 25) * n * (1 + max(abs(c) for c in diff))
    # |ref| >= |value at mid| - variation
    var = sum(abs(c) for c in ref[1:]) + rem
    rmin = max(abs(ref[0]) - var, Fraction(0))
    bound = ab + rel * rmin - rem - slack2
    t = z3.Real('t')
    s = z3.Solver()
    s.set('timeout', 5000)
    e = z3.RealVal(0)
    for c in reversed(diff):
        e = e * t + zfrac(c)
    s.add(t >= -1, t <= 1)
    if bound <= 0:
        return u0
    out = None
    for c in (e > zfrac(bound), e < zfrac(-bound)):
        s.push()
        s.add(c)
        r = query(s)
        if r == z3.sat:
            v = s.model()[t]
            s.pop()
            v = v.approx(20) if z3.is_algebraic_value(v) else v
            return u0 + h * Fraction(v.numerator_as_long(), v.denominator_as_long())
        if r != z3.unsat:
            s.pop()
            return None
        s.pop()
    return 'proved'


def round_frac(f):
    return Fraction(round(f * 10 ** 30), 10 ** 30) if f.denominator > 10 ** 40 else f


def log_pieces(p, pc, got, x, ab, rel, deadline):
    c, m = BITS[x.id]
    if rel:
        return 'unknown', 'relative bound for log'
    g = rf(got)
    if g.den:
        return 'unknown', 'not a polynomial'
    tabs = {}
    z = {}
    for mono in g.num:
        for i, e in mono:
            a = ATOMS[i]
            if a.kind == 'table':
                if e != 1 or len(mono) != 1:
                    return 'unknown', 'nonlinear in a table'
                tabs[i] = a
            elif a.kind == 'int':
                if e != 1 or len(mono) != 1:
                    return 'unknown', 'nonlinear'
            else:
                if a.kind not in ('log', 'pi') or not closed_atom(i):
                    return 'unknown', 'term %s' % a.kind
    if len(tabs) != 1:
        return 'unknown', '%d tables' % len(tabs)
    ti, ta = tabs.popitem()
    name, idx = ta.payload.args
    if not isinstance(m, IT) or len(m.lin) != 1:
        return 'unknown', 'mantissa'
    mi = m.lin[0][0]
    # index of the form (mantissa) div D
    if len(idx.lin) != 1 or idx.lin[0][1] != 1 or idx.c:
        return 'unknown', 'index form'
    ia = IAtom.all[idx.lin[0][0]]
    if ia.kind == 'var' and ia.idx == mi:
        D = 1
    elif ia.kind == 'div' and isinstance(ia.args[0], IT) and ia.args[0] == m:
        D = ia.args[1]
    else:
        return 'unknown', 'index form'
    tab = TABLES[name]
    M = 1 << 23
    n = M // D
    vals = {}
    with mpmath.workdps(40):
        for q in range(m.lo // D, min(m.hi // D + 1, len(tab))):
            t = tab[q]
            vals[q] = near(norm.eval_real(t, {})) if isinstance(t, RT) else t
        ln2 = mpmath.log(2)
    slack = Fraction(1, 2 ** 58)

    def rnd(v):
        # a short rational within the slack
        return Fraction(round(v * 2 ** 60), 2 ** 60)
    first, last = m.lo // D, m.hi // D
    logs = {}
    with mpmath.workdps(40):
        for q in range(first, last + 2):
            logs[q] = rnd(near(mpmath.log(1 + mpmath.mpf(q) / n)))
    vals = {q: rnd(v) for q, v in vals.items()}
    if len(tab) < n:
        return 'unknown', 'table of %d entries for %d values' % (len(vals), n)
    step = 4
    bad = None
    for q0 in range(first, last + 1, step):
        if deadline and time.time() > deadline:
            return 'unknown', 'out of time'
        q1 = min(last + 1, q0 + step)
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 20000)
        zm, zc, zt, zl, zln2 = z3.Real('m'), z3.Real('c'), z3.Real('T'), z3.Real('L'), z3.Real('ln2')
        s.add(zc >= i_lo(c), zc <= i_hi(c))
        l2 = rnd(near(ln2))
        # c log 2 = c l2 + (error of l2, below slack) * c
        s.add(zln2 >= zfrac(-slack * 160), zln2 <= zfrac(slack * 160))
        cells = []
        for q in range(q0, q1):
            # log(1 + u) on the cell: chord below, tangent at the left end above; u = m / M, w = m - q D
            w = zm - q * D
            fa, fb = logs[q], logs[q + 1]
            cells.append(z3.And(
                zt >= zfrac(vals[q] - slack), zt <= zfrac(vals[q] + slack), w >= 0, w < D,
                zl >= zfrac(fa - slack) + w * zfrac((fb - fa) / D), zl <= zfrac(fa + slack) + w * zfrac(Fraction(n, (n + q) * M))))
        s.add(z3.Or(*cells))
        e = z3.RealVal(0)
        for mono, k in g.num.items():
            if not mono:
                e = e + zfrac(k)
                continue
            if len(mono) == 1 and mono[0][0] == ti:
                # closed factors were folded into k
                e = e + zfrac(k) * zt
                continue
            v = None
            if len(mono) == 1 and ATOMS[mono[0][0]].kind == 'int':
                at = ATOMS[mono[0][0]].payload
                if at.idx == mi:
                    e = e + zfrac(k) * zm
                else:
                    if not isinstance(c, IT) or c.lin != ((at.idx, 1),) or c.c:
                        return 'unknown', 'unrelated integer'
                    e = e + zfrac(k) * zc
                continue
            v = closed_mono(mono)
            if v is None:
                return 'unknown', 'monomial'
            e = e + zfrac(rnd(k * near(v)))
        r = zc * zfrac(l2) + zln2 + zl
        s.add(z3.Or(e - r > zfrac(ab), r - e > zfrac(ab)))
        got_ = query(s)
        if got_ == z3.unsat:
            continue
        if got_ == z3.sat:
            md = s.model()
            ev = lambda t: md.eval(t, model_completion=True)
            cv = int(ev(zc).numerator_as_long() // ev(zc).denominator_as_long())
            mv = ev(zm)
            mv = mv.numerator_as_long() // mv.denominator_as_long()
            for mm in (mv, min(mv + 1, q1 * D - 1), (mv // D) * D, (mv // D) * D + D - 1):
                env = {IAtom.all[mi].name: mm}
                for i, _ in c.lin if isinstance(c, IT) else ():
                    env[IAtom.all[i].name] = cv
                gv = norm.eval_real(got, dict(env))
                rv = cv * mpmath.log(2) + mpmath.log(1 + mpmath.mpf(mm) / M)
                if abs(gv - rv) > mpf(ab):
                    raise Refuted(env, '%s vs %s' % (mpmath.nstr(gv, 9), mpmath.nstr(rv, 9)))
        bad = q0
    if bad is not None:
        return 'unknown', 'undecided block at %d' % bad
    return 'proved', None


def p_axioms(pc, c):
    from .prove import int_axioms
    if not isinstance(c, IT):
        return []
    out = []
    for i, _ in c.lin:
        out.extend(int_axioms(i))
    return out


def closed_atom(i):
    from .prove import closed_value
    return closed_value(i) is not None or (ATOMS[i].kind == 'log' and isinstance(ATOMS[i].arg, int))


def closed_mono(mono):
    from .prove import closed_value
    v = mpmath.mpf(1)
    for i, e in mono:
        a = ATOMS[i]
        x = mpmath.log(a.arg) if a.kind == 'log' and isinstance(a.arg, int) else closed_value(i)
        if x is None:
            return None
        v *= x ** e
    return v
