"""z3 back end: path feasibility, proof obligations, counterexample models."""
from fractions import Fraction
import time
import random
import z3
import mpmath
from .terms import *
from . import norm, subst
from .norm import rf, pkey, psign, ATOMS

mpmath.mp.dps = 40


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.feas_queries = 0
        self.normalised = 0

    def add(self, o):
        for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s', 'feas_queries', 'normalised'):
            setattr(self, k, getattr(self, k) + getattr(o, k))

    def dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    solver_s=round(self.solver_s, 3), feasibility_queries=self.feas_queries,
                    normalised_first=self.normalised)


STATS = Stats()


def zfrac(c):
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


# ---------------------------------------------------------------- ints

def zi_atom(a):
    if a.z is None:
        if a.kind == 'var':
            a.z = z3.Int('i_' + a.name)
        elif a.kind == 'mul':
            a.z = zi(a.args[0]) * zi(a.args[1])
        elif a.kind == 'div':
            a.z = zi(a.args[0]) / a.args[1]
        else:
            a.z = zi(a.args[0]) % a.args[1]
    return a.z


def zi(t):
    if not isinstance(t, IT):
        return z3.IntVal(t)
    s = [zi_atom(IAtom.all[i]) if k == 1 else k * zi_atom(IAtom.all[i]) for i, k in t.lin]
    if t.c:
        s.append(z3.IntVal(t.c))
    return z3.Sum(s) if len(s) > 1 else s[0]


def ivars_of(t, out):
    if isinstance(t, IT):
        for i, k in t.lin:
            a = IAtom.all[i]
            if a.kind == 'var':
                out.add(i)
            else:
                for x in a.args:
                    ivars_of(x, out)


# ---------------------------------------------------------------- reals

def za(i):
    a = ATOMS[i]
    if a.z is None:
        if a.kind == 'int':
            a.z = z3.ToReal(zi_atom(a.payload))
        else:
            a.z = z3.Real('r%d_%s' % (a.idx, a.kind) if a.kind != 'var' else 'v_' + a.name)
    return a.z


def zpoly(p):
    if not p:
        return z3.RealVal(0)
    terms = []
    for m, c in p.items():
        fs = []
        if c != 1 or not m:
            fs.append(zfrac(c))
        for i, e in m:
            fs.extend([za(i)] * e)
        x = fs[0]
        for f in fs[1:]:
            x = x * f
        terms.append(x)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def poly_atoms(p, out):
    for m in p:
        for i, e in m:
            if i not in out:
                out.add(i)
                a = ATOMS[i]
                if a.kind == 'exp' or a.kind == 'sqrt':
                    pass


_CLOSED = {}


def closed_poly(p):
    s = mpmath.mpf(0)
    for m, c in p.items():
        x = mpmath.mpf(c.numerator) / c.denominator
        for i, e in m:
            v = closed_value(i)
            if v is None:
                return None
            x *= v ** e
        s += x
    return s


def closed_value(i):
    """value of an atom without variables, or None"""
    if i not in _CLOSED:
        a = ATOMS[i]
        v = None
        try:
            if a.kind == 'pi':
                v = +mpmath.mp.pi
            elif a.kind == 'sqrt':
                x = closed_poly(dict(a.payload))
                v = None if x is None or x < 0 else mpmath.sqrt(x)
            elif a.kind in ('log', 'exp', 'lgamma'):
                n, d = closed_poly(a.payload.num), mpmath.mpf(1)
                for k, e in a.payload.den.items():
                    y = closed_poly(dict(k))
                    d = None if y is None or d is None else d * y ** e
                if n is not None and d is not None:
                    x = n / d
                    if a.kind == 'log':
                        v = mpmath.log(abs(x))
                    elif a.kind == 'exp':
                        v = mpmath.exp(x)
                    else:
                        v = mpmath.log(abs(mpmath.gamma(x)))
        except (ZeroDivisionError, ValueError, OverflowError):
            v = None
        _CLOSED[i] = v
    return _CLOSED[i]


def atom_axioms(i):
    a = ATOMS[i]
    if a.axioms is None:
        ax = []
        if a.kind in ('exp', 'lgamma', 'sqrt') or (a.kind == 'log' and not isinstance(a.arg, int)):
            v = closed_value(i)
            if v is not None:
                w = abs(v) * mpmath.mpf(10) ** -15 + mpmath.mpf(10) ** -25
                for b, up in ((v - w, False), (v + w, True)):
                    f = Fraction(*[int(z) for z in (b * mpmath.mpf(2) ** 200).__int__().as_integer_ratio()]) / 2 ** 200
                    ax.append(za(i) <= zfrac(f) if up else za(i) >= zfrac(f))
        if a.kind == 'var':
            name, lo, hi, strict = a.payload.args
            if lo is not None:
                ax.append(za(i) > zfrac(Fraction(lo)) if strict else za(i) >= zfrac(Fraction(lo)))
            if hi is not None:
                ax.append(za(i) <= zfrac(Fraction(hi)))
        elif a.kind == 'int':
            s = set()
            t = a.payload
            ivs = set()
            if t.kind == 'var':
                ivs.add(t.idx)
            else:
                for x in t.args:
                    ivars_of(x, ivs)
            for j in ivs:
                ax.extend(int_axioms(j))
        elif a.kind == 'exp':
            ax.append(za(i) > 0)
        elif a.kind == 'table':
            tab = TABLES[a.payload.args[0]]
            ax.append(za(i) >= zfrac(min(tab)))
            ax.append(za(i) <= zfrac(max(tab)))
        elif a.kind == 'sqrt':
            ax.append(za(i) >= 0)
            if closed_value(i) is None:
                ax.append(za(i) * za(i) == zpoly(dict(a.payload)))
        elif a.kind == 'pi':
            ax.append(za(i) > zfrac(Fraction(314159, 100000)))
            ax.append(za(i) < zfrac(Fraction(314160, 100000)))
        elif a.kind == 'log' and isinstance(a.arg, int):
            if a.arg > 1:
                v = mpmath.log(a.arg)
                lo = Fraction(int(mpmath.floor(v * 10 ** 9)), 10 ** 9)
                ax.append(za(i) > zfrac(lo))
                ax.append(za(i) < zfrac(lo + Fraction(2, 10 ** 9)))
        a.axioms = ax
    return a.axioms


_IAX = {}


def int_axioms(j):
    r = _IAX.get(j)
    if r is None:
        a = IAtom.all[j]
        r = []
        if a.lo > -INF:
            r.append(zi_atom(a) >= a.lo)
        if a.hi < INF:
            r.append(zi_atom(a) <= a.hi)
        _IAX[j] = r
    return r


class Enc(object):
    """collects the z3 form of boolean terms plus the axioms of the atoms they mention"""

    cache = {}

    @staticmethod
    def enc(b):
        r = Enc.cache.get(b.key)
        if r is None:
            ats, ivs = set(), set()
            z = Enc._enc(b, ats, ivs)
            ax = []
            seen = set()
            todo = list(ats)
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                ax.extend(atom_axioms(i))
                if ATOMS[i].kind == 'sqrt':
                    s2 = set()
                    poly_atoms(dict(ATOMS[i].payload), s2)
                    todo.extend(s2 - seen)
            for j in ivs:
                ax.extend(int_axioms(j))
            r = (z, ax, seen, ivs)
            Enc.cache[b.key] = r
        return r

    @staticmethod
    def _enc(b, ats, ivs):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        op = b.op
        if op == 'not':
            return z3.Not(Enc._enc(b.args[0], ats, ivs))
        if op == 'and':
            return z3.And([Enc._enc(x, ats, ivs) for x in b.args])
        if op == 'or':
            return z3.Or([Enc._enc(x, ats, ivs) for x in b.args])
        if op in ('ilt', 'ieq'):
            ivars_of(b.args[0], ivs)
            t = b.args[0]
            # n*x + ... (+c)  < 0
            z = zi(t)
            return z < 0 if op == 'ilt' else z == 0
        d = norm.rf_add(rf(b.args[0]), norm.rf_scale(rf(b.args[1]), -1))
        poly_atoms(d.num, ats)
        n = zpoly(d.num)
        if op == 'req':
            return n == 0
        odd = []
        for k, e in d.den.items():
            if e % 2:
                p = dict(k)
                if psign(p) != '+':
                    odd.append(p)
                    poly_atoms(p, ats)
        for p in odd:
            n = n * zpoly(p)
        return n < 0


class Prover(object):
    """A z3 solver with a stack of path conditions (kept as a prefix-shared push/pop stack)."""

    def __init__(self, timeout_ms=4000, seed=1):
        self.s = z3.SolverFor('QF_UFNRA') if False else z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.s.set('random_seed', seed)
        self.timeout = timeout_ms
        self.stack = []
        self.cache = {}
        self.eqkey = self.eqs = None

    def sync(self, pc):
        n = 0
        st = self.stack
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for b in pc[n:]:
            self.s.push()
            z, ax, _, _ = Enc.enc(b)
            self.s.add(*ax)
            self.s.add(z)
            st.append(b)

    def check(self, pc, extra, feas=True):
        """sat / unsat / unknown of pc and extra (a BT or bool)"""
        if extra is False:
            return 'unsat'
        key = (tuple(b.key for b in pc), extra if isinstance(extra, bool) else extra.key)
        r = self.cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        if extra is not True:
            z, ax, _, _ = Enc.enc(extra)
            self.s.add(*ax)
            self.s.add(z)
        r = str(self.s.check())
        self.s.pop()
        dt = time.time() - t0
        STATS.solver_s += dt
        if feas:
            STATS.feas_queries += 1
        else:
            STATS.queries += 1
            setattr(STATS, r, getattr(STATS, r) + 1)
        if r == 'unknown':
            r = self.retry(pc, extra)
        self.cache[key] = r
        return r

    def quick(self, pc, extra, ms=400):
        """check with a small time limit and no second attempt"""
        if extra is False:
            return 'unsat'
        key = (tuple(b.key for b in pc), extra if isinstance(extra, bool) else extra.key)
        r = self.cache.get(key) or self.cache.get(('q', key))
        if r is not None:
            return r
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        self.s.set('timeout', ms)
        z, ax, _, _ = Enc.enc(extra)
        self.s.add(*ax)
        self.s.add(z)
        r = str(self.s.check())
        self.s.pop()
        self.s.set('timeout', self.timeout)
        STATS.solver_s += time.time() - t0
        STATS.feas_queries += 1
        self.cache[('q', key)] = r
        return r

    def retry(self, pc, extra):
        """a fresh non-incremental solver (nlsat) for the hard ones"""
        t0 = time.time()
        s = z3.Tactic('qfnra-nlsat').solver() if self.pure_real(pc, extra) else z3.Solver()
        s.set('timeout', self.timeout * 2)
        for b in list(pc) + ([extra] if extra is not True else []):
            z, ax, _, _ = Enc.enc(b)
            s.add(*ax)
            s.add(z)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        STATS.solver_s += time.time() - t0
        return r

    def pure_real(self, pc, extra):
        for b in list(pc) + ([extra] if extra is not True else []):
            _, _, ats, ivs = Enc.enc(b)
            if ivs or any(ATOMS[i].kind == 'int' for i in ats):
                return False
        return True

    def may(self, pc, b):
        """could b be true under pc? (unknown counts as yes)"""
        if isinstance(b, bool):
            return b
        return self.check(pc, b) != 'unsat'

    def must(self, pc, b):
        if isinstance(b, bool):
            return b
        return self.check(pc, b_not(b)) == 'unsat'

    # ------------------------------------------------------------ obligations

    def prove(self, pc, goal):
        """('proved'|'refuted'|'unknown')"""
        if goal is True:
            STATS.queries += 1
            STATS.unsat += 1
            return 'proved'
        if isinstance(goal, BT):
            g, neg = (goal.args[0], True) if goal.op == 'not' else (goal, False)
            if g.op == 'rlt' and norm.is_closed(g.args[0]) and norm.is_closed(g.args[1]):
                v = norm.closed_less(g.args[0], g.args[1])
                if v is not None and v != neg:
                    STATS.queries += 1
                    STATS.unsat += 1
                    return 'proved'
                if v is not None:
                    STATS.queries += 1
                    STATS.sat += 1
                    return 'refuted'
        if isinstance(goal, BT) and goal.op == 'req' and norm.is_closed(goal.args[0]) and norm.is_closed(goal.args[1]):
            if norm.closed_less(*goal.args) is not None:
                STATS.queries += 1
                STATS.sat += 1
                return 'refuted'
        if isinstance(goal, BT) and goal.op == 'req':
            r = self.prove_identity(pc, goal.args[0], goal.args[1])
            if r == 'proved':
                return r
            r = self.prove_substituted(pc, goal.args[0], goal.args[1])
            if r == 'proved':
                return r
        r = self.check(pc, b_not(goal), feas=False)
        return {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r]

    def prove_substituted(self, pc, a, b):
        """rewrite with the equalities of the path condition first (they reach under log, lgamma)"""
        key = tuple(x.key for x in pc if not isinstance(x, bool))
        if self.eqkey != key:
            self.eqkey = key
            self.eqs = subst.equalities(pc)
        im, rm = self.eqs
        if not im and not rm:
            return 'unknown'
        memo = {}
        x, y = subst.sr(a, im, rm, memo), subst.sr(b, im, rm, memo)
        if isinstance(x, NonFinite) or isinstance(y, NonFinite) or (x is a and y is b):
            return 'unknown'
        if x is y or x == y:
            STATS.queries += 1
            STATS.unsat += 1
            return 'proved'
        r = self.prove_identity(pc, x, y)
        if r != 'proved':
            g = r_eq(x, y)
            if g is not True and g is not False:
                r = {'unsat': 'proved'}.get(self.check(pc, b_not(g), feas=False), 'unknown')
        return r

    def prove_identity(self, pc, a, b):
        """discharge a == b as a polynomial identity over canonical atoms, by z3,
        without the path condition (identities rarely need it)"""
        d = norm.rf_add(rf(a), norm.rf_scale(rf(b), -1))
        if d.num:
            return 'unknown'
        # z3's own arithmetic decides the un-normalised cross-multiplied equation
        t0 = time.time()
        STATS.queries += 1
        r = 'skip'
        if zsize(a) + zsize(b) < 6000:
            n1, d1 = zpair(a)
            n2, d2 = zpair(b)
            s = z3.Solver()
            s.set('timeout', 700)
            s.set('rlimit', 3000000)
            eq = n1 == n2 if d1 is None and d2 is None else (
                n1 * (d2 if d2 is not None else 1) == n2 * (d1 if d1 is not None else 1))
            s.add(z3.Not(eq))
            r = str(s.check())
        STATS.solver_s += time.time() - t0
        if r != 'unsat':
            # large identity: z3 gets the normalised numerator instead
            STATS.normalised += 1
            s = z3.Solver()
            s.add(zpoly(d.num) != 0)
            r = str(s.check())
        setattr(STATS, r, getattr(STATS, r) + 1)
        return 'proved' if r == 'unsat' else 'unknown'

    def models(self, pc, extra, n=6, seed=1, vars_hint=None):
        """up to n varied models (dict var name -> Fraction/int) of pc and extra"""
        out = []
        rnd = random.Random(seed)
        reals, ints = set(), set()
        for b in list(pc) + ([extra] if isinstance(extra, BT) else []):
            _, _, ats, ivs = Enc.enc(b)
            for i in ats:
                if ATOMS[i].kind == 'var':
                    reals.add(i)
                elif ATOMS[i].kind == 'int':
                    s = set()
                    p = ATOMS[i].payload
                    if p.kind == 'var':
                        ints.add(p.idx)
            ints |= ivs
        if vars_hint:
            for t in vars_hint:
                if isinstance(t, RT):
                    reals.add(norm.var_atom(t).idx)
                elif isinstance(t, IT):
                    ivars_of(t, ints)
        rl, il = sorted(reals), sorted(ints)
        for k in range(3 * n):
            if len(out) >= n:
                break
            s = z3.Solver()
            s.set('timeout', 3000)
            s.set('random_seed', rnd.randrange(1 << 20))
            for b in list(pc) + ([extra] if isinstance(extra, BT) else []):
                z, ax, _, _ = Enc.enc(b)
                s.add(*ax)
                s.add(z)
            for i in rl:
                s.add(*atom_axioms(i))
            for i in il:
                s.add(*int_axioms(i))
            # soft hints: moderate, distinct values
            if s.check() != z3.sat:
                if k == 0:
                    # nlsat for hard pure real problems
                    r = self._one_nlsat(pc, extra, rl)
                    if r is not None:
                        out.append(r)
                    break
                continue
            if k % 3 != 2 or k == 0:
                hints = []
                for i in rl:
                    lo = ATOMS[i].payload.args[1]
                    hi = ATOMS[i].payload.args[2]
                    lo = Fraction(lo) if lo is not None else Fraction(-4)
                    hi = Fraction(hi) if hi is not None else max(Fraction(4), lo + 4)
                    lo2 = max(lo, Fraction(-5)) if lo < 0 else lo
                    hi2 = min(hi, lo2 + 8)
                    v = lo2 + (hi2 - lo2) * Fraction(rnd.randrange(1, 32), 32)
                    hints.append(za(i) == zfrac(v))
                for i in il:
                    a = IAtom.all[i]
                    lo = a.lo if a.lo > -INF else -5
                    hi = min(a.hi, lo + 7)
                    hints.append(zi_atom(a) == rnd.randrange(lo, hi + 1))
                rnd.shuffle(hints)
                for h in hints:
                    s.push()
                    s.add(h)
                    if s.check() != z3.sat:
                        s.pop()
                if s.check() != z3.sat:
                    continue
            m = s.model()
            out.append(self._extract(m, rl, il))
        return out

    def _one_nlsat(self, pc, extra, rl):
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', 5000)
        for b in list(pc) + ([extra] if isinstance(extra, BT) else []):
            z, ax, _, _ = Enc.enc(b)
            s.add(*ax)
            s.add(z)
        try:
            if s.check() == z3.sat:
                return self._extract(s.model(), rl, [])
        except z3.Z3Exception:
            pass
        return None

    def _extract(self, m, rl, il):
        d = {}
        for i in rl:
            v = m.eval(za(i), model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(12)
            d[ATOMS[i].payload.args[0]] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        for i in il:
            v = m.eval(zi_atom(IAtom.all[i]), model_completion=True)
            d[IAtom.all[i].name] = v.as_long()
        return d


# ---------------------------------------------------------------- un-normalised translation

def zrf(r):
    d = None
    for k, e in r.den.items():
        z = zpoly(dict(k))
        for _ in range(e):
            d = z if d is None else d * z
    return zpoly(r.num), d


_ZS = {}


def zsize(t):
    """upper bound on the monomials of zpair(t) once multiplied out"""
    r = _zs(t)
    return r[0] * r[1]


def _zs(t):
    if isinstance(t, Fraction):
        return (1, 1)
    if t.id in _ZS:
        return _ZS[t.id]
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in _ZS:
            stack.pop()
            continue
        if u.op in ('add', 'sub', 'mul', 'div'):
            pend = [x for x in u.args if isinstance(x, RT) and x.id not in _ZS]
            if pend:
                stack.extend(pend)
                continue
            (n1, d1), (n2, d2) = [_zs(x) for x in u.args]
            if u.op in ('add', 'sub'):
                r = (n1 * d2 + n2 * d1, d1 * d2)
            elif u.op == 'mul':
                r = (n1 * n2, d1 * d2)
            else:
                r = (n1 * d2, d1 * n2)
        else:
            f = rf(u)
            d = 1
            for k, e in f.den.items():
                d *= len(k) ** e
            r = (max(1, len(f.num)), d)
        _ZS[u.id] = (min(r[0], 10 ** 9), min(r[1], 10 ** 9))
        stack.pop()
    return _ZS[t.id]


def zpair(t):
    """(numerator, denominator or None) as z3 terms, without expanding anything"""
    if isinstance(t, Fraction):
        return zfrac(t), None
    if t.zp is not None:
        return t.zp
    stack = [t]
    while stack:
        u = stack[-1]
        if u.zp is not None:
            stack.pop()
            continue
        if u.op in ('add', 'sub', 'mul', 'div'):
            pend = [x for x in u.args if isinstance(x, RT) and x.zp is None]
            if pend:
                stack.extend(pend)
                continue
            (n1, d1), (n2, d2) = [zpair(x) for x in u.args]
            if u.op in ('add', 'sub'):
                if d1 is None and d2 is None:
                    r = (n1 + n2 if u.op == 'add' else n1 - n2, None)
                elif d1 is not None and d2 is not None and d1.eq(d2):
                    r = (n1 + n2 if u.op == 'add' else n1 - n2, d1)
                else:
                    x = n1 if d2 is None else n1 * d2
                    y = n2 if d1 is None else n2 * d1
                    d = d2 if d1 is None else d1 if d2 is None else d1 * d2
                    r = (x + y if u.op == 'add' else x - y, d)
            elif u.op == 'mul':
                d = d2 if d1 is None else d1 if d2 is None else d1 * d2
                r = (n1 * n2, d)
            else:
                n = n1 if d2 is None else n1 * d2
                d = n2 if d1 is None else n2 * d1
                r = (n, d)
        else:
            r = zrf(rf(u))
        u.zp = r
        stack.pop()
    return t.zp
