"""Symbolic execution of Python code by re-execution.

Values are proxies over the same terms as the LLVM engine: SR (real), SI (integer), SB (boolean).
A branch on a symbolic boolean (SB.__bool__) consults the current decision prefix; a new branch is
decided by the prover, and when both sides are feasible the other side is queued as a new prefix.
Symbolic integers used as indices, keys or loop bounds are case-split over their feasible values.
"""
import math
import time
import traceback
from fractions import Fraction

import numpy as _np

from .terms import *
from .terms import r_fn, real_const, b_not, i_mul
from .prove import Prover

CUR = [None]                  # the path being executed


class Unsupported(Exception):
    pass


class PathStop(BaseException):
    """the path ends here (assumption fails, or the harness is done)"""


def eng():
    return CUR[0]


def is_sym(x):
    return isinstance(x, (SR, SI, SB))


def real(x):
    """term of a number"""
    if isinstance(x, SR):
        return x.t
    if isinstance(x, SI):
        return r_int(x.t)
    if isinstance(x, SB):
        return Fraction(int(bool(x)))
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, _np.floating)):
        return real_const(float(x))
    if isinstance(x, _np.ndarray) and x.size == 1:
        return real(x.reshape(-1)[0])
    raise TypeError('not a number: %r' % (type(x),))


def integer(x):
    if isinstance(x, SI):
        return x.t
    if isinstance(x, SB):
        return int(bool(x))
    if isinstance(x, (bool, int, _np.integer, _np.bool_)):
        return int(x)
    return None


def mk_r(t):
    return SR(t)


def mk_i(t):
    return SI(t) if isinstance(t, IT) else t


def numeric(x):
    return isinstance(x, (SR, SI, SB, int, float, Fraction, _np.integer, _np.floating, _np.bool_))


def nonzero(t):
    """a divisor or logarithm argument"""
    if isinstance(t, Fraction):
        return t != 0
    if isinstance(t, NonFinite):
        return True
    return not eng().domain(r_eq(t, ZERO), b_not(r_eq(t, ZERO)))


class Num(object):
    __slots__ = ()

    def __radd__(self, o):
        return self.__add__(o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        if not numeric(o):
            return NotImplemented
        b = real(o)
        if not nonzero(b):
            raise ZeroDivisionError('division by zero')
        return SR(r_div(real(self), b))

    def __rtruediv__(self, o):
        if not numeric(o):
            return NotImplemented
        b = real(self)
        if not nonzero(b):
            raise ZeroDivisionError('division by zero')
        return SR(r_div(real(o), b))

    def _cmp(self, o, fi, fr):
        if not numeric(o):
            return NotImplemented
        a, b = integer(self), integer(o)
        if a is not None and b is not None:
            return mk_b(fi(a, b))
        return mk_b(fr(real(self), real(o)))

    def __lt__(self, o):
        return self._cmp(o, i_lt, r_lt)

    def __le__(self, o):
        return self._cmp(o, i_le, r_le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: i_lt(b, a), lambda a, b: r_lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: i_le(b, a), lambda a, b: r_le(b, a))

    def __eq__(self, o):
        if not numeric(o):
            return False
        return self._cmp(o, i_eq, r_eq)

    def __ne__(self, o):
        if not numeric(o):
            return True
        r = self._cmp(o, i_eq, r_eq)
        return mk_b(b_not(r.t)) if isinstance(r, SB) else not r

    def __abs__(self):
        return -self if self < 0 else self

    def __bool__(self):
        return bool(self != 0)

    # numpy calls these on the elements of object arrays
    def log(self):
        return f_log(self)

    def exp(self):
        return f_exp(self)

    def sqrt(self):
        return f_sqrt(self)

    def conjugate(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SR(Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SR(%s)' % repr(self.t)[:80]

    def __add__(self, o):
        if not numeric(o):
            return NotImplemented
        return SR(r_add(self.t, real(o)))

    def __sub__(self, o):
        if not numeric(o):
            return NotImplemented
        return SR(r_sub(self.t, real(o)))

    def __rsub__(self, o):
        if not numeric(o):
            return NotImplemented
        return SR(r_sub(real(o), self.t))

    def __mul__(self, o):
        if not numeric(o):
            return NotImplemented
        return SR(r_mul(self.t, real(o)))

    def __neg__(self):
        return SR(r_neg(self.t))

    def __pow__(self, o):
        return f_pow(self, o)

    def __rpow__(self, o):
        return f_pow(o, self)

    def __float__(self):
        if isinstance(self.t, Fraction):
            return float(self.t)
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        if isinstance(self.t, Fraction):
            return int(self.t)
        raise Unsupported('int() of a symbolic real')

    __hash__ = object.__hash__


class SI(Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SI(%s)' % repr(self.t)[:80]

    def _bin(self, o, fi, fr):
        if not numeric(o):
            return NotImplemented
        b = integer(o)
        if b is not None:
            return mk_i(fi(self.t, b))
        return SR(fr(r_int(self.t), real(o)))

    def __add__(self, o):
        return self._bin(o, i_add, r_add)

    def __sub__(self, o):
        return self._bin(o, i_sub, r_sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: i_sub(b, a), lambda a, b: r_sub(b, a))

    def __mul__(self, o):
        return self._bin(o, i_mul, r_mul)

    def __neg__(self):
        return mk_i(i_scale(self.t, -1))

    def __floordiv__(self, o):
        b = integer(o)
        if isinstance(b, int) and b > 0:
            return mk_i(i_div(self.t, b))
        if b is None:
            raise Unsupported('floor division')
        return int(self) // int(o)

    def __rfloordiv__(self, o):
        b = integer(o)
        if not isinstance(b, int):
            return NotImplemented
        return b // int(self)

    def __mod__(self, o):
        b = integer(o)
        if isinstance(b, int) and b > 0:
            from .terms import i_mod
            return mk_i(i_mod(self.t, b))
        raise Unsupported('modulo')

    def __pow__(self, o):
        return f_pow(self, o)

    def __rpow__(self, o):
        return f_pow(o, self)

    def __index__(self):
        return eng().concretise(self.t)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())


class SB(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().decide(self.t)

    def __invert__(self):
        return mk_b(b_not(self.t))

    def __and__(self, o):
        return mk_b(b_and(self.t, bt(o)))

    def __or__(self, o):
        return mk_b(b_or(self.t, bt(o)))

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__


def mk_b(b):
    return SB(b) if isinstance(b, BT) else bool(b)


def bt(x):
    if isinstance(x, SB):
        return x.t
    if isinstance(x, BT):
        return x
    return bool(x)


# ------------------------------------------------------------ functions

NUMERIC = False     # log, exp and pow of constants in double precision (set by a harness; its assertions allow for it)


def f_log(x):
    if isinstance(x, _np.ndarray):
        return _np.frompyfunc(f_log, 1, 1)(x)
    t = real(x)
    if isinstance(t, NonFinite):
        return SR(t)
    if isinstance(t, Fraction):
        if t <= 0:
            raise ValueError('math domain error')
        if NUMERIC:
            return SR(Fraction(math.log(t)))
    elif t.op == 'exp':
        return SR(t.args[0])
    elif eng().domain(r_le(t, ZERO), r_lt(ZERO, t)):
        raise ValueError('math domain error')
    return SR(r_fn('log', t))


def f_nplog(x):
    """numpy.log: minus infinity and NaN instead of an exception"""
    if isinstance(x, _np.ndarray):
        return _np.frompyfunc(f_nplog, 1, 1)(x)
    t = real(x)
    if not isinstance(t, (Fraction, NonFinite)) and eng().domain(r_le(t, ZERO), r_lt(ZERO, t)):
        t = ZERO if eng().decide(r_eq(t, ZERO)) else Fraction(-1)
    if isinstance(t, Fraction) and t <= 0:
        return SR(NonFinite('log(%s)' % t, -1 if t == 0 else 0))
    return SR(r_fn('log', t))


def f_exp(x, out=None):
    if isinstance(x, _np.ndarray):
        r = _np.frompyfunc(f_exp, 1, 1)(x)
        if out is not None:
            out[...] = r
            return out
        return r
    t = real(x)
    if NUMERIC and isinstance(t, Fraction):
        return SR(Fraction(math.exp(t)))
    return SR(r_fn('exp', t))


def f_sqrt(x):
    if isinstance(x, _np.ndarray):
        return _np.frompyfunc(f_sqrt, 1, 1)(x)
    t = real(x)
    if not isinstance(t, (Fraction, NonFinite)) and eng().domain(r_lt(t, ZERO), r_le(ZERO, t)):
        raise ValueError('math domain error')
    return SR(r_fn('sqrt', t))


def f_lgamma(x):
    if isinstance(x, _np.ndarray):
        return _np.frompyfunc(f_lgamma, 1, 1)(x)
    t = real(x)
    if isinstance(t, Fraction) and t <= 0 or isinstance(t, RT) and eng().domain(r_le(t, ZERO), r_lt(ZERO, t)):
        raise Unsupported('log-gamma of a nonpositive number')
    return SR(r_fn('lgamma', t))


def f_factorial(x):
    i = integer(x)
    if i is None:
        raise ValueError('factorial() only accepts integral values')
    if isinstance(i, int):
        return math.factorial(i)
    if eng().decide(i_lt(i, 0)):
        raise ValueError('factorial() not defined for negative values')
    return SR(r_fn('exp', r_fn('lgamma', r_add(r_int(i), ONE))))


def f_pow(a, b):
    t, u = real(a), real(b)
    if isinstance(u, Fraction) and u.denominator == 1 and 0 <= u <= 16:
        r = ONE
        for _ in range(int(u)):
            r = r_mul(r, t)
        ia = integer(a)
        if ia is not None and u == 1:
            return mk_i(ia)
        return SR(r)
    if isinstance(u, Fraction) and u == Fraction(1, 2):
        return f_sqrt(a)
    if NUMERIC and isinstance(t, Fraction) and isinstance(u, Fraction):
        return SR(Fraction(float(t) ** float(u)))
    return SR(r_fn('pow', t, u))


def f_multigammaln(a, d):
    # log Gamma_d(a) = d(d-1)/4 log pi + sum_j log Gamma(a - j/2)
    d = int(d)
    r = SR(r_mul(Fraction(d * (d - 1), 4), real(math.log(math.pi))))
    for j in range(d):
        r = r + f_lgamma(SR(r_sub(real(a), Fraction(j, 2))))
    return r


def det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    if n == 3:
        return sum(m[0, i] * (m[1, (i + 1) % 3] * m[2, (i + 2) % 3] - m[1, (i + 2) % 3] * m[2, (i + 1) % 3])
                   for i in range(3))
    raise Unsupported('determinant of size %d' % n)


def inv(m):
    n = m.shape[0]
    d = det(m)
    if n == 1:
        return _np.array([[1 / d]], dtype=object)
    if n == 2:
        return _np.array([[m[1, 1] / d, -m[0, 1] / d], [-m[1, 0] / d, m[0, 0] / d]], dtype=object)
    raise Unsupported('inverse of size %d' % n)


def cholesky(m):
    n = m.shape[0]
    l = _np.zeros((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            s = m[i, j] - sum((l[i, k] * l[j, k] for k in range(j)), 0)
            l[i, j] = f_sqrt(s) if i == j else s / l[j, j]
    return l


def coerce_sym(t, x):
    if t in ('double', 'float'):
        if isinstance(x, SR):
            return x
        if isinstance(x, (SI, SB)):
            return SR(real(x))
        if x is None:
            raise TypeError('a float is required')
        return float(x) if not isinstance(x, Fraction) else SR(x)
    if t == 'bint':
        return bool(x)
    i = integer(x)
    if i is not None:
        return mk_i(i)
    if isinstance(x, SR) and not isinstance(x.t, Fraction):
        if isinstance(x.t, RT) and x.t.op == 'toreal':
            return mk_i(x.t.args[0])
        raise Unsupported('real to int conversion')
    return int(x)


def coerce_real(t, x):
    if t == 'double':
        return float(x)
    if t == 'float':
        return float(_np.float32(x))
    if t == 'bint':
        return bool(x)
    return int(x)


# ------------------------------------------------------------ the explorer

class PyEngine(object):
    from .engine import Engine as _E
    obligation = _E.obligation

    def __init__(self, seed=1, deadline=None, max_paths=20000, base_pc=(), given=None):
        self.p = Prover(4000, seed)
        self.deadline = deadline
        self.max_paths = max_paths
        self.obligations = self.discharged = 0
        self.reach = {}
        self.label_fail = {}
        self.failed = []
        self.incomplete = []
        self.paths = dict(ok=0, assume=0, error=0)
        self.steps = 0
        self.assumed_domain = 0
        self.witnesses = []
        self.base_pc = list(base_pc)
        self.given = given              # inputs of another run, by name
        self.after = None
        self.exports = {}

    # called by the path
    def decide(self, b):
        if isinstance(b, bool):
            return b
        n = self.nd
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            if self.deadline and time.time() > self.deadline:
                self.incomplete.append('time budget')
                raise PathStop('budget')
            t = self.p.may(self.pc, b)
            f = self.p.may(self.pc, b_not(b)) if t else True
            if t and f:
                self.work.append(self.prefix + [False])
            v = t
            self.prefix = self.prefix + [v]
        self.nd = n + 1
        self.steps += 1
        self.assume_(b if v else b_not(b))
        return v

    def domain(self, bad, good):
        """branch on an argument outside a function's domain; when the solver cannot settle it quickly the
        path goes on inside the domain (noted)"""
        if isinstance(bad, bool):
            return bad
        if self.nd >= len(self.prefix):
            r = self.p.quick(self.pc, bad)
            if r != 'sat':
                self.assumed_domain += r == 'unknown'
                self.prefix = self.prefix + [False]
                self.nd += 1
                self.assume_(good)
                return False
        return self.decide(bad)

    def assume_(self, b):
        if b is True:
            return
        self.pc.append(b)

    def concretise(self, t):
        if not isinstance(t, IT):
            return t
        while True:
            if t.lo == t.hi:
                return t.lo
            if t.hi - t.lo <= 16:
                for v in range(t.lo, t.hi):
                    if self.decide(i_eq(t, v)):
                        return v
                if self.p.may(self.pc, i_eq(t, t.hi)):
                    self.assume_(i_eq(t, t.hi))
                    return t.hi
                raise PathStop('infeasible')
            lo, hi = t.lo, t.hi                  # the path may narrow it
            while lo < hi:
                m = (lo + hi) // 2
                lo, hi = (lo, m) if self.p.may(self.pc, i_le(t, m)) else (m + 1, hi)
            first = lo
            lo, hi = max(first, t.lo), t.hi
            while lo < hi:
                m = (lo + hi + 1) // 2
                lo, hi = (m, hi) if self.p.may(self.pc, i_le(m, t)) else (lo, m - 1)
            if lo - first > 64:
                raise Unsupported('case split over a wide integer')
            for v in range(first, lo):
                if self.decide(i_eq(t, v)):
                    return v
            self.assume_(i_eq(t, lo))
            if not self.p.may(self.pc, True):
                raise PathStop('infeasible')
            return lo

    # inputs
    def input(self, name, kind, mk):
        full = '%s#%d' % (name, self.ninput)
        self.ninput += 1
        t = mk(full)
        self.inputs.append((full, kind, t))
        return t

    def run(self, fn):
        """fn() is the harness"""
        self.work = [[]]
        while self.work:
            if self.deadline and time.time() > self.deadline:
                self.incomplete.append('time budget')
                return
            if sum(self.paths.values()) > self.max_paths:
                self.incomplete.append('path budget')
                return
            self.prefix = self.work.pop()
            self.nd = 0
            self.pc = list(self.base_pc)
            self.inputs = list(self.given or [])
            self.ninput = len(self.inputs)
            self.expecting = 0
            CUR[0] = self
            try:
                fn()
                kind, msg, where = 'ok', '', ''
            except PathStop as e:
                kind, msg, where = (str(e) or 'ok'), '', ''
            except Unsupported as e:
                self.incomplete.append('unsupported: %s (%s)' % (e, at(e)))
                if len(self.incomplete) > 20:
                    return
                continue
            except Exception as e:
                kind, msg, where = 'error', '%s' % type(e).__name__, at(e) + ' ' + str(e)[:120]
            if kind == 'ok':
                self.paths['ok'] += 1
                n = self.paths['ok']
                if len(self.witnesses) < 2 or (n & (n - 1)) == 0:
                    if len(self.witnesses) == 4:
                        self.witnesses.pop(1)
                    self.witnesses.append((list(self.pc), list(self.inputs)))
                if self.after:
                    self.after(self)
            elif kind == 'error':
                self.paths['error'] += 1
                self.problem('error: error raised: ' + msg, where)
            else:
                self.paths['assume'] += 1

    def problem(self, label, where):
        n = self.label_fail.get(label, 0)
        self.label_fail[label] = n + 1
        if n >= 2 or self.p.check(self.pc, True) == 'unsat':
            return
        self.failed.append(dict(label=label, where=where, kind='problem', status='refuted', pc=list(self.pc),
                                inputs=list(self.inputs), terms=None, goal=False))

    def ob(self, label, goal, terms=None, kind='bool'):
        self.obligation(self, label, goal, terms, kind)


def at(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/distributions/' in f.filename] or tb[-1:]
    f = fr[-1]
    return '%s:%s %s' % (f.filename.rpartition('/distributions/')[2] or f.filename, f.lineno, f.name)
