"""Normal form for real terms: rational functions over atoms.

Atoms are variables and applications of log / lgamma / exp / sqrt ... to canonical arguments.
Lemmas built in (they are instances of the functional equations, valid for log|.| and log|Gamma|):
  log(p*q/r)   = log p + log q - log r     (arguments are factored)
  lgamma(x+1)  = lgamma(x) + log x
  exp(a+b)     = exp a * exp b,  exp(k*log x) = x**k
Everything else is ring arithmetic; the final identity is handed to z3 (see prove.py).
"""
from fractions import Fraction
from math import gcd
import mpmath
from .terms import *
from .terms import _rt

F0, F1 = Fraction(0), Fraction(1)


class Atom(object):
    __slots__ = ('kind', 'arg', 'idx', 'z', 'nonneg', 'pos', 'name', 'axioms', 'payload')

    def __repr__(self):
        return self.name


ATOMS = []
ATOM_KEY = {}


def atom(kind, key, name, payload=None, nonneg=False, pos=False):
    k = (kind, key)
    a = ATOM_KEY.get(k)
    if a is None:
        a = Atom()
        a.kind, a.arg, a.name = kind, key, name
        a.idx = len(ATOMS)
        a.z = None
        a.nonneg = nonneg or pos
        a.pos = pos
        a.payload = payload
        a.axioms = None
        ATOMS.append(a)
        ATOM_KEY[k] = a
    return a


# ---------------------------------------------------------------- polynomials
# dict: mono -> Fraction, mono = tuple of (atom idx, exponent) sorted

def pconst(c):
    return {(): Fraction(c)} if c else {}


def patom(a):
    return {((a.idx, 1),): F1}


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def pneg(p):
    return {m: -c for m, c in p.items()}


def pscale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    na, nb = len(a), len(b)
    while i < na and j < nb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            r.append(x)
            i += 1
        elif x[0] > y[0]:
            r.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e:
                r.append((x[0], e))
            i += 1
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    if len(q) == 1 and () in q:
        return pscale(p, q[()])
    r = {}
    sq = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s:
                r[m] = s
            else:
                r.pop(m, None)
    return reduce_sqrt(r)


def reduce_sqrt(p):
    """sqrt(x)**2 -> x for polynomial x"""
    bad = None
    for m in p:
        for i, e in m:
            if e >= 2 and ATOMS[i].kind == 'sqrt':
                bad = True
    if not bad:
        return p
    out = {}
    for m, c in p.items():
        t = {(): c}
        for i, e in m:
            a = ATOMS[i]
            if a.kind == 'sqrt' and e >= 2:
                base = dict(a.payload)
                for _ in range(e // 2):
                    t = pmul(t, base)
                if e % 2:
                    t = {mmul(mm, ((i, 1),)): cc for mm, cc in t.items()}
            else:
                t = {mmul(mm, ((i, e),)): cc for mm, cc in t.items()}
        out = padd(out, t)
    return out


def ppow(p, n):
    r = {(): F1}
    for _ in range(n):
        r = pmul(r, p)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def mono_gt(a, b):
    return a > b


def lead(p):
    return max(p)


def primitive(p):
    """content, primitive part (integer coefs, gcd 1, leading coefficient positive)"""
    l = 1
    for c in p.values():
        d = c.denominator
        l = l * d // gcd(l, d)
    g = 0
    for c in p.values():
        g = gcd(g, abs(c.numerator * (l // c.denominator)))
    k = Fraction(g, l)
    if p[lead(p)] < 0:
        k = -k
    if k == 1:
        return F1, p
    return k, {m: c / k for m, c in p.items()}


_FACT = {}


def factor(p):
    """const, list of (irreducible primitive poly as key, exp)"""
    k, q = primitive(p)
    key = pkey(q)
    r = _FACT.get(key)
    if r is None:
        r = _factor(q)
        _FACT[key] = r
    return k * r[0], r[1]


def _factor(q):
    out = []
    # monomial content
    if len(q) == 1:
        (m, c), = q.items()
        return c, [(pkey({((i, 1),): F1}), e) for i, e in m]
    common = None
    for m in q:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {i: min(e, d[i]) for i, e in common.items() if i in d}
    if common:
        for i, e in sorted(common.items()):
            out.append((pkey({((i, 1),): F1}), e))
        inv = tuple(sorted((i, -e) for i, e in common.items()))
        q = {mmul(m, inv): c for m, c in q.items()}
    deg = max(sum(e for _, e in m) for m in q)
    if deg <= 1 or any(len(m) == 1 and m[0][1] == 1 and all(m[0][0] not in [i for i, _ in mm] for mm in q if mm != m)
                       for m in q):
        # linear in some variable with constant coefficient: irreducible
        k, q = primitive(q)
        out.append((pkey(q), 1))
        return k, out
    if deg > 40 or len(q) > 400:
        return F1, out + [(pkey(q), 1)]         # kept whole: factoring could take minutes
    import sympy
    idx = sorted({i for m in q for i, _ in m})
    syms = sympy.symbols(['a%d' % i for i in idx])
    pos = {i: n for n, i in enumerate(idx)}
    d = {}
    for m, c in q.items():
        e = [0] * len(idx)
        for i, x in m:
            e[pos[i]] = x
        d[tuple(e)] = sympy.Rational(c.numerator, c.denominator)
    P = sympy.Poly(d, *syms, domain='QQ')
    c, fs = P.factor_list()
    const = Fraction(int(c.p), int(c.q)) if hasattr(c, 'p') else Fraction(str(c))
    for f, e in fs:
        g = {}
        for mm, cc in f.terms():
            mono = tuple((idx[n], int(x)) for n, x in enumerate(mm) if x)
            cc = sympy.Rational(cc)
            g[mono] = Fraction(int(cc.p), int(cc.q))
        k, g = primitive(g)
        const *= k ** e
        out.append((pkey(g), int(e)))
    return const, out


def pdivexact(p, f):
    """p / f if exact else None (f primitive, non constant)"""
    lf = max(f)
    cf = f[lf]
    lfd = dict(lf)
    r = dict(p)
    q = {}
    steps = 0
    while r:
        m = max(r)
        md = dict(m)
        for i, e in lf:
            if md.get(i, 0) < e:
                return None
        t = mmul(m, tuple((i, -e) for i, e in lf))
        c = r[m] / cf
        q[t] = c
        for mm, cc in f.items():
            x = mmul(mm, t)
            s = r.get(x, 0) - c * cc
            if s:
                r[x] = s
            else:
                r.pop(x, None)
        steps += 1
        if steps > 5000:
            return None
    return q


# `max` over tuples of (idx, exp) is a lexicographic order that is not a monomial
# order in general; use an explicit dense comparison key instead.
def _mkey(m):
    # graded lexicographic: total degree, then exponents by index
    return (sum(e for _, e in m), tuple((-i, e) for i, e in m))


def pdivexact(p, f):      # noqa: F811
    lf = max(f, key=_mkey)
    cf = f[lf]
    r = dict(p)
    q = {}
    inv = tuple((i, -e) for i, e in lf)
    steps = 0
    while r:
        m = max(r, key=_mkey)
        md = dict(m)
        for i, e in lf:
            if md.get(i, 0) < e:
                return None
        t = mmul(m, inv)
        c = r[m] / cf
        q[t] = q.get(t, 0) + c
        for mm, cc in f.items():
            x = mmul(mm, t)
            s = r.get(x, 0) - c * cc
            if s:
                r[x] = s
            else:
                r.pop(x, None)
        steps += 1
        if steps > 3000:
            return None
    return q


def abounds(a):
    """(lo, hi) of an atom, None for unbounded"""
    if a.kind == 'var':
        return a.payload.args[1], a.payload.args[2]
    if a.kind == 'int':
        lo, hi = a.payload.lo, a.payload.hi
        return (None if lo == -INF else lo), (None if hi == INF else hi)
    return (0 if a.nonneg else None), None


def plower(p):
    """a lower bound of the polynomial from the bounds of its atoms, or None"""
    s = Fraction(0)
    for m, c in p.items():
        lo, hi = Fraction(1), Fraction(1)
        for i, e in m:
            l, h = abounds(ATOMS[i])
            if l is None or l < 0:
                if l is None or h is None or len(m) > 1 or e != 1:
                    return None
                lo, hi = Fraction(l), Fraction(h)
                break
            lo *= Fraction(l) ** e
            hi = None if hi is None or h is None else hi * Fraction(h) ** e
        x = lo if c > 0 else hi
        if x is None:
            return None
        s += c * x
    return s


def psign(p):
    """'+': surely > 0, '0+': surely >= 0, None otherwise"""
    r = _psign(p)
    if r is None:
        l = plower(p)
        if l is not None:
            return '+' if l > 0 else '0+' if l == 0 else None
    return r


def _psign(p):
    strict = False
    for m, c in p.items():
        if c < 0:
            for i, e in m:
                pass
            return None
        pos = True
        for i, e in m:
            a = ATOMS[i]
            if e % 2 == 0:
                if not a.pos:
                    pos = False
                continue
            if not a.nonneg:
                return None
            if not a.pos:
                pos = False
        if pos:
            strict = True
    return '+' if strict else '0+'


# ---------------------------------------------------------------- rational functions

class RF(object):
    __slots__ = ('num', 'den')      # den: dict key -> exp

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def key(self):
        return (pkey(self.num), tuple(sorted(self.den.items())))

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    def const(self):
        return self.num.get((), F0)


def rconst(c):
    return RF(pconst(c), {})


def _cancel(num, den):
    if not den or not num:
        return RF(num, {} if not num else dict(den))
    den = dict(den)
    if len(num) <= 1500:
        for fk in list(den):
            f = dict(fk)
            while den.get(fk, 0):
                q = pdivexact(num, f)
                if q is None:
                    break
                num = q
                den[fk] -= 1
                if not den[fk]:
                    del den[fk]
    return RF(num, den)


def _lcm_mult(den_from, den_to):
    """polynomial by which a numerator over den_from must be multiplied to sit over den_to"""
    r = {(): F1}
    for fk, e in den_to.items():
        k = e - den_from.get(fk, 0)
        for _ in range(k):
            r = pmul(r, dict(fk))
    return r


def rf_add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if not a.den and not b.den:
        return RF(padd(a.num, b.num), {})
    den = dict(a.den)
    for k, e in b.den.items():
        if den.get(k, 0) < e:
            den[k] = e
    n = padd(pmul(a.num, _lcm_mult(a.den, den)), pmul(b.num, _lcm_mult(b.den, den)))
    return _cancel(n, den)


def rf_scale(a, k):
    return RF(pscale(a.num, k), a.den if k else {})


def rf_mul(a, b):
    if not a.num or not b.num:
        return RF({}, {})
    if not a.den and not b.den:
        return RF(pmul(a.num, b.num), {})
    x = _cancel(a.num, b.den)
    y = _cancel(b.num, a.den)
    den = dict(x.den)
    for k, e in y.den.items():
        den[k] = den.get(k, 0) + e
    return RF(pmul(x.num, y.num), den)


def rf_inv(a):
    c, fs = factor(a.num)
    num = {(): F1 / c}
    for k, e in a.den.items():
        for _ in range(e):
            num = pmul(num, dict(k))
    den = {}
    for k, e in fs:
        den[k] = den.get(k, 0) + e
    return RF(num, den)


def rf_pow(a, n):
    if n < 0:
        return rf_pow(rf_inv(a), -n)
    r = rconst(1)
    for _ in range(n):
        r = rf_mul(r, a)
    return r


# ---------------------------------------------------------------- atoms for terms

def var_atom(t):
    name, lo, hi, strict = t.args
    return atom('var', t.args, name, payload=t,
                nonneg=lo is not None and lo >= 0,
                pos=lo is not None and (lo > 0 or (lo == 0 and strict)))


def int_atom(a):
    return atom('int', a.idx, repr(a), payload=a, nonneg=a.lo >= 0, pos=a.lo > 0)


def rf_of_int(t):
    if not isinstance(t, IT):
        return rconst(t)
    r = rconst(t.c)
    for i, k in t.lin:
        a = IAtom.all[i]
        if a.kind == 'mul':
            x = rf_mul(rf_of_int(a.args[0]), rf_of_int(a.args[1]))
        else:
            x = RF(patom(int_atom(a)), {})
        r = rf_add(r, rf_scale(x, k))
    return r


_LOGI = {}


def log_of_int(n):
    """log of a positive integer as RF"""
    r = _LOGI.get(n)
    if r is None:
        import sympy
        r = rconst(0)
        if n > 1:
            fs = sympy.factorint(n, limit=10000)
            for p, e in fs.items():
                r = rf_add(r, rf_scale(RF(patom(atom('log', int(p), 'log(%d)' % p, payload=rconst(int(p)))), {}), e))
        _LOGI[n] = r
    return r


def poly_name(p, limit=6):
    s = []
    for m, c in sorted(p.items())[:limit]:
        s.append(('%s' % c) + ''.join('*%s%s' % (ATOMS[i].name, '' if e == 1 else '^%d' % e) for i, e in m))
    return ' + '.join(s) + (' ...' if len(p) > limit else '')


def log_of_polykey(k):
    p = dict(k)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'exp':
                # exp atom stands for exp(payload)
                return a.payload
            if a.kind == 'sqrt':
                return rf_scale(rf_log(RF(dict(a.payload), {})), Fraction(1, 2))
    if psign(p) is None and psign(pneg(p)):
        p = pneg(p)                     # log|p|
    return RF(patom(atom('log', k, 'log(%s)' % poly_name(p), payload=RF(p, {}))), {})


_LOGRF = {}


def rf_log(a):
    if not a.num:
        return RF(patom(atom('log', 0, 'log(0)', payload=rconst(0))), {})
    key = a.key()
    r = _LOGRF.get(key)
    if r is not None:
        return r
    c, fs = factor(a.num)
    c = abs(c)
    r = rf_add(log_of_int(c.numerator), rf_scale(log_of_int(c.denominator), -1))
    for k, e in fs:
        r = rf_add(r, rf_scale(log_of_polykey(k), e))
    for k, e in a.den.items():
        r = rf_add(r, rf_scale(log_of_polykey(k), -e))
    _LOGRF[key] = r
    return r


def rf_lgamma(a):
    if a.is_const():
        c = a.const()
        if c.denominator == 1 and 0 < c < 400:
            import math
            return log_of_int(math.factorial(int(c) - 1))
    if not a.den:
        c = a.num.get((), F0)
        n = c.numerator // c.denominator
        if n and abs(n) <= 80:
            p0 = padd(a.num, pconst(-n))
            if p0 and p0 != {(): F0}:
                r = rf_lgamma(RF(p0, {}))
                if n > 0:
                    for k in range(n):
                        r = rf_add(r, rf_log(RF(padd(p0, pconst(k)), {})))
                else:
                    for k in range(1, -n + 1):
                        r = rf_add(r, rf_scale(rf_log(RF(padd(p0, pconst(-k)), {})), -1))
                return r
        if a.is_const() and a.const() == Fraction(1, 2):
            return rf_scale(rf(r_fn('log', PI)), Fraction(1, 2))
    key = a.key()
    return RF(patom(atom('lgamma', key, 'lgamma(%s)' % poly_name(a.num), payload=a)), {})


def rf_abs(a):
    if not a.den and psign(a.num) is None:
        q = pkey(pmul(a.num, a.num))
        return RF(patom(atom('sqrt', q, '|%s|' % poly_name(a.num), payload=q, nonneg=True)), {})
    return a


def rf_exp(a):
    r = rconst(1)
    denk = tuple(sorted(a.den.items()))
    for m, c in a.num.items():
        if not denk and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log':
            la = ATOMS[m[0][0]]
            if c.denominator == 1:
                r = rf_mul(r, rf_pow(rf_abs(la.payload), c.numerator))
                continue
            if c.denominator == 2:
                r = rf_mul(r, rf_pow(rf_sqrt(rf_abs(la.payload)), c.numerator))
                continue
        unit = Fraction(1, c.denominator)
        pay = RF({m: unit}, dict(a.den))
        e = atom('exp', (m, unit, denk), 'exp(%s%s)' % (poly_name({m: unit}), '/..' if denk else ''),
                 payload=pay, pos=True)
        r = rf_mul(r, rf_pow(RF(patom(e), {}), c.numerator))
    return r


def rf_sqrt(a):
    """formal square root; even powers come out as themselves when surely nonnegative"""
    if not a.num:
        return rconst(0)
    # sqrt(n/d) = sqrt(n*d)/d
    c, fs = factor(a.num)
    out = rconst(1)
    rest = {(): F1}
    items = [(k, e) for k, e in fs] + [(k, -e) for k, e in a.den.items()]
    for k, e in items:
        h = e // 2 if e >= 0 else -((-e) // 2)
        if e % 2:
            h = (e - 1) // 2
            rest = pmul(rest, dict(k))
        if h:
            p = dict(k)
            if psign(p) is None:
                p2 = atom('sqrt', pkey(pmul(p, p)), '|%s|' % poly_name(p), payload=pkey(pmul(p, p)), nonneg=True)
                out = rf_mul(out, rf_pow(RF(patom(p2), {}), h))
            else:
                out = rf_mul(out, rf_pow(RF(p, {}), h))
    # constant: sqrt(p/q) = sqrt(p*q)/q
    n, d = c.numerator, c.denominator
    m = n * d
    s = 1
    f = 2
    mm = abs(m)
    while f * f <= mm and f < 1000:
        while mm % (f * f) == 0:
            mm //= f * f
            s *= f
        f += 1
    out = rf_scale(out, Fraction(s, d))
    rest = pscale(rest, mm if m > 0 else -mm)
    if rest == {(): F1}:
        return out
    k = pkey(rest)
    at = atom('sqrt', k, 'sqrt(%s)' % poly_name(rest), payload=k, nonneg=True)
    return rf_mul(out, RF(patom(at), {}))


def rf(t):
    """RT | Fraction -> RF"""
    if isinstance(t, Fraction):
        return rconst(t)
    if isinstance(t, int):
        return rconst(t)
    if t.rf is not None:
        return t.rf
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        u = stack[-1]
        if u.rf is not None:
            stack.pop()
            continue
        pend = [x for x in u.args if isinstance(x, RT) and x.rf is None]
        if pend:
            stack.extend(pend)
            continue
        u.rf = _rf1(u)
        stack.pop()
    return t.rf


def _rf1(t):
    op = t.op
    if op == 'var':
        return RF(patom(var_atom(t)), {})
    if op == 'pi':
        return RF(patom(atom('pi', 0, 'pi', pos=True)), {})
    if op == 'toreal':
        return rf_of_int(t.args[0])
    if op == 'table':
        return RF(patom(atom('table', (t.args[0], t.args[1].key), 'table(%r)' % t.args[1], payload=t)), {})
    a = rf(t.args[0])
    if op == 'log':
        return rf_log(a)
    if op == 'lgamma':
        return rf_lgamma(a)
    if op == 'exp':
        return rf_exp(a)
    if op == 'sqrt':
        return rf_sqrt(a)
    if op == 'add':
        return rf_add(a, rf(t.args[1]))
    if op == 'sub':
        return rf_add(a, rf_scale(rf(t.args[1]), -1))
    if op == 'mul':
        return rf_mul(a, rf(t.args[1]))
    if op == 'div':
        return rf_mul(a, rf_inv(rf(t.args[1])))
    if op == 'pow':
        b = rf(t.args[1])
        if b.is_const() and b.const().denominator == 1 and abs(b.const()) <= 16:
            return rf_pow(a, int(b.const()))
        return rf_exp(rf_mul(b, rf_log(a)))
    # generic uninterpreted function of canonical arguments
    key = tuple(rf(x).key() if isinstance(x, (RT, Fraction)) else x for x in t.args)
    return RF(patom(atom('uf:' + op, key, '%s(..)' % op, payload=t)), {})


# ---------------------------------------------------------------- numeric evaluation

def eval_int(t, env):
    if not isinstance(t, IT):
        return t
    s = t.c
    for i, k in t.lin:
        a = IAtom.all[i]
        if a.kind == 'var':
            v = env[a.name]
        elif a.kind == 'mul':
            v = eval_int(a.args[0], env) * eval_int(a.args[1], env)
        elif a.kind == 'div':
            v = eval_int(a.args[0], env) // a.args[1]
        else:
            v = eval_int(a.args[0], env) % a.args[1]
        s += k * v
    return s


class NoValue(Exception):
    pass


def eval_real(t, env, memo=None):
    """numeric value with mpmath (true log/lgamma/exp)"""
    if memo is None:
        memo = {}
    if isinstance(t, Fraction):
        return mpmath.mpf(t.numerator) / t.denominator
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in memo:
            stack.pop()
            continue
        pend = [x for x in u.args if isinstance(x, RT) and x.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        memo[u.id] = _ev1(u, env, memo)
        stack.pop()
    return memo[t.id]


def _ev1(t, env, memo):
    op = t.op
    if op == 'var':
        v = env[t.args[0]]
        return mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpmath.mpf(v)
    if op == 'pi':
        return +mpmath.mp.pi
    if op == 'toreal':
        return mpmath.mpf(eval_int(t.args[0], env))

    if op == 'table':
        x = TABLES[t.args[0]][eval_int(t.args[1], env)]
        if isinstance(x, RT):
            return eval_real(x, env)
        return mpmath.mpf(x.numerator) / x.denominator

    def g(x):
        if isinstance(x, Fraction):
            return mpmath.mpf(x.numerator) / x.denominator
        return memo[x.id]
    a = g(t.args[0])
    try:
        if op == 'add':
            return a + g(t.args[1])
        if op == 'sub':
            return a - g(t.args[1])
        if op == 'mul':
            return a * g(t.args[1])
        if op == 'div':
            return a / g(t.args[1])
        if op == 'log':
            if a <= 0:
                raise NoValue()
            return mpmath.log(a)
        if op == 'lgamma':
            return mpmath.re(mpmath.loggamma(a)) if a > 0 else mpmath.log(abs(mpmath.gamma(a)))
        if op == 'exp':
            return mpmath.exp(a)
        if op == 'sqrt':
            if a < 0:
                raise NoValue()
            return mpmath.sqrt(a)
        if op == 'pow':
            return mpmath.power(a, g(t.args[1]))
    except (ZeroDivisionError, ValueError, OverflowError):
        raise NoValue()
    raise NoValue()


_ISCLOSED = {}


def is_closed(t):
    """no variables anywhere in the term"""
    if isinstance(t, Fraction):
        return True
    if not isinstance(t, RT):
        return False
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in _ISCLOSED:
            stack.pop()
            continue
        if u.op in ('var', 'table') or any(isinstance(x, IT) for x in u.args):
            _ISCLOSED[u.id] = False
            continue
        pend = [x for x in u.args if isinstance(x, RT) and x.id not in _ISCLOSED]
        if pend:
            stack.extend(pend)
            continue
        _ISCLOSED[u.id] = all(_ISCLOSED[x.id] for x in u.args if isinstance(x, RT))
        stack.pop()
    return _ISCLOSED[t.id]


_CLOSEDVAL = {}


def closed_less(a, b):
    """a < b for terms without variables, when 40 digits tell"""
    try:
        x, y = eval_real(a, {}, _CLOSEDVAL), eval_real(b, {}, _CLOSEDVAL)
    except (NoValue, ValueError, ZeroDivisionError, OverflowError):
        return None
    if abs(x - y) <= mpmath.mpf(10) ** -25 * (1 + abs(x) + abs(y)):
        return None
    return bool(x < y)


def eval_bool(b, env, memo=None):
    if isinstance(b, bool):
        return b
    if b.op == 'not':
        return not eval_bool(b.args[0], env, memo)
    if b.op == 'and':
        return all(eval_bool(x, env, memo) for x in b.args)
    if b.op == 'or':
        return any(eval_bool(x, env, memo) for x in b.args)
    if b.op == 'ilt':
        return eval_int(b.args[0], env) < 0
    if b.op == 'ieq':
        return eval_int(b.args[0], env) == 0
    if memo is None:
        memo = {}
    x, y = (eval_real(a, env, memo) for a in b.args)
    if b.op == 'rlt':
        return x < y
    if b.op == 'req':
        return x == y
    raise NoValue()
