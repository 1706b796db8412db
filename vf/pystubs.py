"""Stand-ins for the libraries that the Python sources import, and the harness interface V.

symbolic mode  numbers are proxies, arrays are numpy object arrays, log/exp/gammaln are terms.
real mode      (replay) the real math/numpy/scipy; only random draws are taken from the inputs.
Random draws are recorded in both modes as (kind, parameters, value); the value is an input.
"""
import logging
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import pyload, pysym
from .pysym import (SR, SI, SB, Unsupported, PathStop, real, integer, mk_i, mk_b, bt, is_sym, numeric)
from .terms import (r_add, r_eq, r_le, r_lt, i_eq, rvar, ivar, NonFinite, RT, IT, BT, b_not, ZERO)


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


# ------------------------------------------------------------ numbers

class _FloatMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (float, SR))


class my_float(metaclass=_FloatMeta):
    def __new__(c, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, SR):
            return x
        if isinstance(x, (SI, SB)):
            return SR(real(x))
        return float(x)


class _IntMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (int, SI))


class my_int(metaclass=_IntMeta):
    def __new__(c, x=0, *a):
        if isinstance(x, SI):
            return x
        if isinstance(x, SR):
            t = x.t
            if isinstance(t, Fraction):
                return int(t)
            if isinstance(t, RT) and t.op == 'toreal':
                return mk_i(t.args[0])
            raise Unsupported('int() of a symbolic real')
        if isinstance(x, SB):
            return int(bool(x))
        return int(x, *a)


def _kind(dtype):
    if dtype is None:
        return None
    if dtype in (my_int, int) or isinstance(dtype, type) and issubclass(dtype, np.integer):
        return 'int'
    if dtype in (my_float, float) or isinstance(dtype, type) and issubclass(dtype, np.floating):
        return 'float'
    if isinstance(dtype, str):
        return 'int' if dtype[0] in 'iu' else 'float'
    return None


def _conv(a, kind):
    a = np.array(a, dtype=object)
    if kind == 'float':
        return np.frompyfunc(my_float, 1, 1)(a) if a.size else a
    if kind == 'int':
        return np.frompyfunc(my_int, 1, 1)(a) if a.size else a
    return a


def _obj(a):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item()
    return a


def sym_numpy(draw):
    n = module('numpy')
    for k in ('ndarray', 'outer', 'dot', 'inner', 'inf', 'pi', 'newaxis', 'isscalar', 'shape', 'ndim', 'transpose',
              'concatenate', 'vstack', 'hstack', 'bool_', 'integer', 'floating', 'int32', 'int64', 'uint32', 'float32',
              'float64', 'cumsum', 'sum', 'arange', 'triu_indices_from', 'tril_indices_from', 'copy'):
        if hasattr(np, k):
            setattr(n, k, getattr(np, k))
    n.array = lambda a, dtype=None, copy=True: _conv(list(a) if isinstance(a, (range, types.GeneratorType)) else a, _kind(dtype))
    n.asarray = n.array
    n.zeros = lambda shape, dtype=None: _fill(shape, 0 if _kind(dtype) == 'int' else 0.0)
    n.ones = lambda shape, dtype=None: _fill(shape, 1 if _kind(dtype) == 'int' else 1.0)
    n.empty = n.zeros
    n.eye = lambda d: np.array(np.eye(d), dtype=object)
    n.identity = n.eye
    n.zeros_like = lambda a, dtype=None: _fill(a.shape, 0 if _kind(dtype) == 'int' else 0.0)
    n.ones_like = lambda a, dtype=None: _fill(a.shape, 1 if _kind(dtype) == 'int' else 1.0)
    n.diag = lambda a: np.diag(a)
    n.log = pysym.f_nplog
    n.exp = pysym.f_exp
    n.sqrt = pysym.f_sqrt
    n.maximum = np.frompyfunc(lambda a, b: a if a >= b else b, 2, 1)
    n.minimum = np.frompyfunc(lambda a, b: a if a <= b else b, 2, 1)
    n.max = lambda a: max(np.asarray(a, dtype=object).reshape(-1))
    n.min = lambda a: min(np.asarray(a, dtype=object).reshape(-1))
    n.linalg = module('numpy.linalg', det=lambda m: pysym.det(np.asarray(m, dtype=object)),
                      inv=lambda m: pysym.inv(np.asarray(m, dtype=object)),
                      cholesky=lambda m: pysym.cholesky(np.asarray(m, dtype=object)),
                      slogdet=lambda m: (1.0, pysym.f_log(pysym.det(m))))
    n.random = np_random(draw)
    n.core = module('numpy.core')
    n.set_printoptions = lambda *a, **k: None
    return n


def _fill(shape, v):
    a = np.empty(shape if not isinstance(shape, tuple) else tuple(int(x) for x in shape), dtype=object)
    a.fill(v)
    return a


def np_random(draw):
    r = module('numpy.random')

    def rand(*shape):
        if shape:
            return np.array([draw('uniform', ()) for _ in range(int(np.prod(shape)))], dtype=object).reshape(shape)
        return draw('uniform', ())

    def many(f):
        def g(*a, **k):
            size = k.pop('size', None)
            if size is None:
                return f(*a, **k)
            n = int(np.prod(size))
            return np.array([f(*a, **k) for _ in range(n)]).reshape(size)
        return g

    def normal(loc=0.0, scale=1.0):
        return draw('normal', (loc, scale))

    def chisquare(df, size=None):
        x = draw('chi2', (df,))
        return x if size is None else np.array([x])

    def gamma(shape, scale=1.0):
        return draw('gamma', (shape, scale))

    def mvn(mean, cov, size=None):
        if size is None:
            return draw('mvn', (mean, cov))
        n = 1
        for k in (size if isinstance(size, (tuple, list)) else [size]):
            n *= int(k)
        return np.array([draw('mvn', (mean, cov)) for _ in range(n)])

    r.rand = rand
    r.random = lambda size=None: rand() if size is None else rand(size)
    r.random_sample = r.random
    r.uniform = many(lambda lo=0.0, hi=1.0: lo + (hi - lo) * draw('uniform', ()))
    r.normal = many(normal)
    r.randn = lambda *s: normal() if not s else many(normal)(size=s)
    r.chisquare = chisquare
    r.gamma = many(gamma)
    r.standard_gamma = many(lambda s: draw('gamma', (s, 1.0)))
    r.beta = many(lambda a, b: draw('beta', (a, b)))
    r.poisson = many(lambda m=1.0: draw('poisson', (m,)))
    r.dirichlet = lambda a: draw('dirichlet', (a,))
    r.multivariate_normal = mvn
    r.negative_binomial = many(lambda n, p: draw('negbin', (n, p)))
    r.binomial = many(lambda n, p: draw('binomial', (n, p)))
    r.exponential = many(lambda scale=1.0: draw('gamma', (1.0, scale)))
    r.permutation = lambda n: draw('permutation', (n,))
    r.seed = lambda x=None: None
    r.mtrand = module('numpy.random.mtrand', **{k: v for k, v in r.__dict__.items() if not k.startswith('_')})
    return r


def scipy_stats(draw):
    def rv(f):
        class _rv(object):
            @staticmethod
            def rvs(*a, **k):
                size = k.pop('size', None)
                if size is not None:
                    return np.array([f(*a, **k) for _ in range(int(np.prod(size)))]).reshape(size)
                return f(*a, **k)
        return _rv
    return module(
        'scipy.stats',
        norm=rv(lambda loc=0.0, scale=1.0: draw('normal', (loc, scale))),
        chi2=rv(lambda df: draw('chi2', (df,))),
        bernoulli=rv(lambda p: draw('bernoulli', (p,))),
        nbinom=rv(lambda n, p: draw('negbin', (n, p))),
        gamma=rv(lambda a, loc=0, scale=1.0: draw('gamma', (a, scale))),
        beta=rv(lambda a, b: draw('beta', (a, b))),
        poisson=rv(lambda m: draw('poisson', (m,))))


# ------------------------------------------------------------ C++ containers behind lp wrappers

class Struct(object):
    """a C++ struct: numeric fields are floats or ints as declared"""

    def __init__(self, fields, **kw):
        object.__setattr__(self, '_t', fields)
        for k, t in fields.items():
            object.__setattr__(self, k, kw.get(k, 0 if t in pyload.NUM else None))
        for k, v in kw.items():
            object.__setattr__(self, k, v)

    def __setattr__(self, k, v):
        t = self._t.get(k)
        if t is None:
            raise AttributeError('no field %s' % k)
        object.__setattr__(self, k, pyload.coerce(t, v) if t in pyload.NUM else v)


class FixedArray(list):
    def __init__(self, n, t, v):
        list.__init__(self, [v] * n)
        self.t = t

    def __setitem__(self, i, v):
        if pyload.inside(self, i):
            list.__setitem__(self, i, pyload.coerce(self.t, v))

    def __getitem__(self, i):
        return list.__getitem__(self, i) if pyload.inside(self, i) else 0


class Entry(object):
    def __init__(self, k, v):
        self.first, self.second = k, v


class Iter(object):
    def __init__(self, items, pos):
        self.items, self.pos = items, pos

    def __ne__(self, o):
        return self.pos != o.pos

    def __eq__(self, o):
        return self.pos == o.pos

    __hash__ = None


def deref(i):
    return i.items[i.pos]


def inc(i):
    i.pos += 1
    return i


class SparseMap(object):
    """SparseFloat: unique keys; errors as the C++ class raises them"""

    def __init__(self, t='float'):
        self.d, self.t = {}, t

    def key(self, k):
        return pyload.coerce('int', k) if k is not None else k

    def clear(self):
        self.d.clear()

    def contains(self, k):
        return self.key(k) in self.d

    def add(self, k, v):
        k = self.key(k)
        if k in self.d:
            raise RuntimeError('duplicate key')
        self.d[k] = pyload.coerce(self.t, v)

    def get(self, k):
        return self.d[self.key(k)]

    def size(self):
        return len(self.d)

    def begin(self):
        return Iter([Entry(k, v) for k, v in self.d.items()], 0)

    def end(self):
        return Iter([], len(self.d))


class SparseCounter(SparseMap):
    def __init__(self):
        SparseMap.__init__(self, 'int')
        self.total = 0

    def clear(self):
        self.d.clear()
        self.total = 0

    def init_count(self, k, v):
        k = self.key(k)
        if v == 0:
            return
        if k in self.d:
            raise RuntimeError('duplicate key')
        self.d[k] = pyload.coerce('int', v)
        self.total = self.total + self.d[k]

    def get_count(self, k):
        return self.d.get(self.key(k), 0)

    def get_total(self):
        return self.total

    def add(self, k, v=1):
        k = self.key(k)
        n = self.d.get(k, 0) + v
        self.total = self.total + v
        if n == 0:
            self.d.pop(k, None)
        else:
            self.d[k] = n


class Message(object):
    """a protobuf message: declared fields only, values coerced to their declared types"""

    def __init__(self, name, fields):
        self._set('_name', name)
        self._set('_f', fields)
        self.Clear()

    def _set(self, k, v):
        object.__setattr__(self, k, v)

    def Clear(self):
        for k, (t, rep) in self._f.items():
            self._set(k, Repeated(t) if rep else 0 if t != 'float' else 0.0)

    def __setattr__(self, k, v):
        if k not in self._f or self._f[k][1]:
            raise AttributeError('message %s: cannot assign %s' % (self._name, k))
        self._set(k, msg_coerce(self._f[k][0], v))


def msg_coerce(t, v):
    if t == 'float':
        return pyload.coerce('double', v)
    if isinstance(v, SR) or isinstance(v, float):
        raise TypeError('integer field assigned a float')
    return pyload.coerce('int', v)


class Repeated(list):
    def __init__(self, t):
        list.__init__(self)
        self.t = t

    def append(self, v):
        list.append(self, msg_coerce(self.t, v))

    add = append

    def extend(self, vs):
        for v in vs:
            self.append(v)


def schema(repo=None):
    """message name -> {field: (type, repeated)} from schema.proto"""
    import re
    text = open(os.path.join(repo or pyload.REPO, 'distributions/io/schema.proto')).read()
    text = re.sub(r'//.*', '', text)
    out = {}
    stack = []
    for tok in re.finditer(r'message\s+(\w+)\s*\{|(optional|required|repeated)\s+(\w+)\s+(\w+)\s*=\s*\d+[^;]*;|\}|oneof\s+\w+\s*\{',
                           text):
        if tok.group(1):
            stack.append(tok.group(1))
            out['.'.join(stack)] = {}
        elif tok.group(2):
            t = 'float' if tok.group(3) in ('float', 'double') else 'int'
            out['.'.join(stack)][tok.group(4)] = (t, tok.group(2) == 'repeated')
        elif tok.group(0) == '}' and stack:
            stack.pop()
    return out


# ------------------------------------------------------------ the harness interface

class VBase(object):
    def __init__(self):
        self.draws = []
        self.loader = None
        self.fixed_draws = []
        self.forbid = False
        self.limit = None           # histories that draw more often lie outside the bounds

    # draws: the value is an input
    def draw(self, kind, params):
        if self.forbid:
            self.check('draws no random numbers', False)
        if self.limit is not None and len(self.draws) >= self.limit:
            raise PathStop('assume')
        f = getattr(self, 'd_' + kind)
        v = f(*params)
        self.draws.append((kind, tuple(params), v))
        return v

    def d_uniform(self):
        return self.real('u', 0, 1, strict_hi=True)

    def d_normal(self, mean, std):
        return self.real('normal', -1000, 1000)

    def d_chi2(self, nu):
        return self.real('chi2', 1. / 1024, 1024)

    def d_gamma(self, shape, scale):
        return self.real('gamma', 1. / 1024, 1024)

    def d_beta(self, a, b):
        return self.real('beta', 1. / 1024, 1023. / 1024)

    def d_poisson(self, m):
        return self.int('poisson', 0, 1000)

    def d_negbin(self, r, p):
        return self.int('negbin', 0, 1000)

    def d_bernoulli(self, p):
        return self.choice('bernoulli', 2)

    def d_dirichlet(self, alphas):
        n = len(alphas)
        ps = [self.real('p', 1. / 1024, 1) for _ in range(n - 1)]
        last = 1 - sum(ps, 0)
        self.assume(last > 1. / 1024)
        return self.arr(ps + [last])

    def d_mvn(self, mean, cov):
        return self.arr([self.real('mvn', -100, 100) for _ in range(len(mean))])

    def d_invwishart(self, S, nu):
        n = S.shape[0]
        a = self.real('iw', .25, 4)
        if n == 1:
            return self.arr([[a * a]])
        b, c = self.real('iw', -4, 4), self.real('iw', .25, 4)
        return self.arr([[a * a, a * b], [a * b, b * b + c * c]])

    def d_permutation(self, n):
        left = list(range(int(n)))
        out = []
        while left:
            out.append(left.pop(self.choice('perm', len(left))))
        return out

    def exp(self, x):
        return pysym.f_exp(x) if self.sym else math.exp(x)

    def log(self, x):
        return pysym.f_log(x) if self.sym else math.log(x)

    def numeric(self):
        pysym.NUMERIC = True

    def sqrt(self, x):
        return pysym.f_sqrt(x) if self.sym else math.sqrt(x)

    def arr(self, a):
        return np.array(a, dtype=object if self.sym else float)

    # modules of the code under test
    def load(self, name):
        return self.loader.load(name)

    def make_loader(self):
        pysym.NUMERIC = False
        draw = self.draw
        stubs = {}
        if self.sym:
            n = sym_numpy(draw)
            stubs['numpy'] = n
            stubs['numpy.linalg'] = n.linalg
            stubs['numpy.random'] = n.random
            stubs['numpy.random.mtrand'] = n.random.mtrand
            stubs['math'] = module('math', log=pysym.f_log, exp=pysym.f_exp, sqrt=pysym.f_sqrt, pi=math.pi, e=math.e,
                                   lgamma=pysym.f_lgamma, factorial=pysym.f_factorial, pow=pysym.f_pow,
                                   log1p=lambda x: pysym.f_log(x + 1), fabs=abs,
                                   isnan=lambda x: isinstance(x, SR) and isinstance(x.t, NonFinite) and x.t.sign == 0)
            stubs['scipy.special'] = module('scipy.special', gammaln=pysym.f_lgamma, multigammaln=pysym.f_multigammaln)
        else:
            def dr(kind, params):
                v = draw(kind, params)
                return v
            n = module('numpy')
            n.__dict__.update({k: getattr(np, k) for k in dir(np) if not k.startswith('__') and k not in ('random',)})
            n.random = np_random(dr)
            stubs['numpy'] = n
            stubs['numpy.random'] = n.random
            stubs['numpy.random.mtrand'] = n.random.mtrand
            import scipy.special
            stubs['scipy.special'] = scipy.special
        stubs['scipy.stats'] = scipy_stats(draw)
        stubs['scipy'] = module('scipy', stats=stubs['scipy.stats'], special=stubs['scipy.special'])
        stubs['distributions.vendor'] = module('distributions.vendor')
        stubs['distributions.vendor.stats'] = module(
            'distributions.vendor.stats', sample_invwishart=lambda S, nu: draw('invwishart', (S, nu)))
        stubs['distributions.vendor'].stats = stubs['distributions.vendor.stats']
        m = stubs.get('math') or math
        stubs['libc'] = module('libc')
        stubs['libc.math'] = module('libc.math', log=self.c_log, sqrt=m.sqrt, lgamma=m.lgamma, exp=m.exp, M_PI=math.pi,
                                    pow=m.pow)
        stubs['libc.math'].__dict__['pow'] = m.pow
        stubs['cython'] = module('cython', address=lambda x: x)
        stubs['cython.operator'] = module('cython.operator', dereference=deref, preincrement=inc)
        stubs['cython'].operator = stubs['cython.operator']
        stubs['libcpp'] = module('libcpp')
        stubs['libcpp.vector'] = module('libcpp.vector', vector=list)
        stubs['libcpp.utility'] = module('libcpp.utility', pair=tuple)
        stubs['distributions.rng_cc'] = module('distributions.rng_cc', rng_t=object)
        stubs['distributions.global_rng'] = module('distributions.global_rng', get_rng=lambda: [object()])
        stubs['distributions.sparse_counter'] = module('distributions.sparse_counter', SparseCounter=SparseCounter,
                                                       SparseFloat=SparseMap)
        stubs['distributions.lp.vector'] = module('distributions.lp.vector', VectorFloat=list,
                                                  vector_float_to_ndarray=None)
        stubs['distributions._eigen_h'] = module('distributions._eigen_h', VectorXf=object, MatrixXf=object)
        cp = lambda a: np.array(a, dtype=object if self.sym else float)
        stubs['distributions._eigen'] = module('distributions._eigen', to_eigen_vecf=cp, to_eigen_matf=cp,
                                               to_np_1darray=cp, to_np_2darray=cp)
        stubs['logging'] = logging
        ov = dict(float=my_float, int=my_int) if self.sym else {}
        ld = pyload.Loader(stubs, ov)
        log = logging.getLogger('distributions.dbg.random')
        log.disabled = True
        pyload.OUTSIDE[0] = lambda: self.check('no access beyond a fixed array', False)
        pyload.CONTROL[0] = (pysym.Unsupported,)
        pyload.COERCE[0] = pysym.coerce_sym if self.sym else pysym.coerce_real

        def std_normal(rng, mu, sigmasq):
            # rng_cc.hpp: std_random_normal takes a variance (its own check reads the header)
            return draw('normal', (mu, m.sqrt(sigmasq)))

        def std_dirichlet(rng, dim, alphas, thetas):
            v = draw('dirichlet', ([alphas[i] for i in range(dim)],))
            for i in range(dim):
                thetas[i] = v[i]

        def std_categorical(rng, dim, ps):
            t = draw('uniform', ())
            for d in range(int(dim) - 1):
                t = t - ps[d]
                if t < 0:
                    return d
            return int(dim) - 1
        ld.inject['distributions.hp.random'] = dict(
            std_rng_seed=lambda r, s: None, std_random_normal=std_normal,
            std_random_chisq=lambda r, nu: draw('chi2', (nu,)),
            std_random_gamma=lambda r, a, b: draw('gamma', (a, b)),
            std_random_poisson=lambda r, mu: draw('poisson', (mu,)),
            std_random_categorical=std_categorical, std_random_dirichlet=std_dirichlet)
        ld.inject['distributions.hp.special'] = dict(M_PI=math.pi)
        ld.inject['distributions.lp.clustering'] = dict(
            PitmanYor_cc=lambda: Struct(dict(alpha='float', d='float')),
            LowEntropy_cc=lambda: Struct(dict(dataset_size='int')))
        for name, f in LP.items():
            mod = lp_base(name, f)
            stubs['distributions.lp.models._' + name] = mod
            ld.mods['distributions.lp.models._' + name] = mod
            ld.mods['_' + name] = mod
        self.loader = ld

    def c_log(self, x):
        if self.sym:
            return pysym.f_nplog(x)
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    # what the harness says
    def same(self, label, a, b):
        """equality of nested dumps"""
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                self.check(label + ' (keys)', False)
                return
            for k in a:
                self.same(label, a[k], b[k])
        elif isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            a, b = list(a), list(b)
            if len(a) != len(b):
                self.check(label + ' (length)', False)
                return
            for x, y in zip(a, b):
                self.same(label, x, y)
        else:
            self.close(label, a, b)

    def expect_error(self, label, fn):
        try:
            fn()
        except (PathStop, Unsupported):
            raise
        except Exception:
            self.check(label, True)
            return
        self.check(label, False)


LP = {
    'bb': (dict(alpha='float', beta='float'), dict(heads='int', tails='int')),
    'bnb': (dict(alpha='float', beta='float', r='int'), dict(count='int', sum='int')),
    'gp': (dict(alpha='float', inv_beta='float'), dict(count='int', sum='int', log_prod='float')),
    'nich': (dict(mu='float', kappa='float', sigmasq='float', nu='float'),
             dict(count='int', mean='float', count_times_variance='float')),
    'dd': (dict(dim='int', alphas='object'), dict(count_sum='int', counts='object')),
    'dpd': (dict(gamma='float', alpha='float', beta0='float', betas='object', counts='object'), dict(counts='object')),
    'niw': (dict(mu='object', kappa='float', psi='object', nu='float'),
            dict(count='int', sum_x='object', sum_xxT='object')),
}


def lp_base(name, f):
    sf, gf = f

    class Shared(object):
        def __cinit__(self):
            p = Struct(sf)
            if name == 'dd':
                p.alphas = FixedArray(256, 'float', 0.0)
            if name == 'dpd':
                p.betas, p.counts = SparseMap(), SparseCounter()
            object.__setattr__(self, 'ptr', p)

    class Group(object):
        def __cinit__(self):
            p = Struct(gf)
            if name == 'dd':
                p.counts = FixedArray(256, 'int', 0)
            if name == 'dpd':
                p.counts = SparseCounter()
            object.__setattr__(self, 'ptr', p)

        def init(self, shared):
            if name == 'dd':
                for i in range(shared.ptr.dim):
                    self.ptr.counts[i] = 0
                self.ptr.count_sum = 0
            elif name == 'dpd':
                self.ptr.counts.clear()

    class Plain(object):
        pass
    for c in (Shared, Group):
        ci = c.__cinit__

        def new(cls, *a, **k):
            o = object.__new__(cls)
            for b in reversed(cls.__mro__):
                g = b.__dict__.get('__cinit__')
                if g:
                    g(o)
            return o
        c.__new__ = staticmethod(new)
    return module('distributions.lp.models._' + name, Shared=Shared, Group=Group, Sampler=Plain, Mixture=Plain,
                  sample_group=None, get_rng=None)


class SymV(VBase):
    sym = True

    def __init__(self, eng, given=None):
        VBase.__init__(self)
        self.e = eng

    def real(self, name, lo, hi, strict_lo=False, strict_hi=False):
        flo, fhi = Fraction(lo), Fraction(hi)
        t = self.e.input(name, 'f', lambda n: rvar(n, flo, fhi, strict_lo))
        if strict_hi:
            self.e.assume_(r_lt(t, fhi))
        return SR(t) if not isinstance(t, (IT, int)) else SI(t)

    def int(self, name, lo, hi):
        return mk_i(self.e.input(name, 'i', lambda n: ivar(n, lo, hi)))

    def choice(self, name, n):
        t = self.e.input(name, 'i', lambda nm: ivar(nm, 0, n - 1))
        return self.e.concretise(t)

    def imp(self, name):
        """a value exported by the C++ half"""
        t = self.e.exports[name]
        return SR(t) if not isinstance(t, (IT, int)) else mk_i(t)

    def has(self, name):
        return name in self.e.exports

    def conc(self, x):
        return self.e.concretise(x.t) if isinstance(x, SI) else x

    def near(self, label, a, b, tol):
        ta, tb = real(a), real(b)
        self.e.ob(label, r_le(ta, r_add(tb, Fraction(tol))), (ta, r_add(tb, Fraction(tol))), 'le')
        self.e.ob(label, r_le(tb, r_add(ta, Fraction(tol))), (tb, r_add(ta, Fraction(tol))), 'le')

    def assume(self, b):
        b = bt(b)
        if b is True:
            return
        if b is False or not self.e.p.may(self.e.pc, b):
            raise PathStop('assume')
        self.e.assume_(b)

    def check(self, label, b):
        self.e.ob(label, bt(b))

    def close(self, label, a, b):
        ia, ib = integer(a), integer(b)
        if ia is not None and ib is not None:
            self.e.ob(label, i_eq(ia, ib), (ia, ib), 'eqi')
        else:
            ta, tb = real(a), real(b)
            self.e.ob(label, r_eq(ta, tb), (ta, tb), 'close')

    eq = close

    def le(self, label, a, b):
        ta, tb = real(a), real(b)
        self.e.ob(label, r_le(ta, tb), (ta, tb), 'le')

    def lt(self, label, a, b):
        ta, tb = real(a), real(b)
        self.e.ob(label, r_lt(ta, tb), (ta, tb), 'lt')


class RealV(VBase):
    """replay with concrete inputs"""
    sym = False

    def __init__(self, vals, out=sys.stdout, tol=1e-6):
        VBase.__init__(self)
        self.vals, self.pos, self.out, self.tol, self.fails = vals, 0, out, tol, 0

    def say(self, s):
        self.out.write(s + '\n')
        self.out.flush()

    def next(self, name):
        if self.pos < len(self.vals):
            self.pos += 1
            return self.vals[self.pos - 1]
        if os.environ.get('V_DEFAULT'):
            return '0.5'
        self.say('EXHAUSTED ' + name)
        raise PathStop('exhausted')

    def real(self, name, lo, hi, strict_lo=False, strict_hi=False):
        x = float(self.next(name))
        hi = float(hi)
        if strict_hi:
            hi = math.nextafter(hi, -math.inf)
        return min(max(x, float(lo)), hi)

    def int(self, name, lo, hi):
        return int(float(self.next(name)))

    def choice(self, name, n):
        return int(float(self.next(name)))

    exports = {}

    def imp(self, name):
        k, x = self.exports[name]
        return int(x) if k == 'i' else float(x)

    def has(self, name):
        return name in self.exports

    def conc(self, x):
        return x

    def near(self, label, a, b, tol):
        self.le(label, a, b + tol)
        self.le(label, b, a + tol)

    def assume(self, b):
        if not b:
            self.say('ASSUME')
            raise PathStop('assume')

    def fail(self, label, a, b):
        self.fails += 1
        self.say('FAIL %s: %s vs %s' % (label, a, b))

    def check(self, label, b):
        if not b:
            self.fail(label, 0, 1)

    def close(self, label, a, b):
        a, b = float(a), float(b)
        if a == b:
            return
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b) or \
                abs(a - b) > self.tol * (1 + abs(a) + abs(b)):
            self.fail(label, a, b)

    eq = close

    def le(self, label, a, b):
        a, b = float(a), float(b)
        if not a <= b + self.tol * (1 + abs(a) + abs(b)):
            self.fail(label, a, b)

    def lt(self, label, a, b):
        a, b = float(a), float(b)
        if not a < b + self.tol * (1 + abs(a) + abs(b)):
            self.fail(label, a, b)
