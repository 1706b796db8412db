"""C25: the lp classes forward every call to the C++ object behind them (model=NAME or no model).

The C++ side is a recorder: each call is logged with its arguments and answered with a fresh value, vectors passed by
reference are written to, so what the wrapper hands over and hands back is observed in full.
"""
from vf import pyload, pystubs, pysym

NONE = object()


class Cpp(object):
    """a C++ object behind a pointer"""

    def __init__(self, rec, kind):
        self.__dict__.update(_rec=rec, _kind=kind, _from=None)

    def __getitem__(self, i):
        assert i == 0
        return self

    def __setitem__(self, i, o):
        assert i == 0
        self.__dict__['_from'] = o

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a: self._rec(self, name, a)


class Groups(Cpp):
    def __init__(self, rec):
        Cpp.__init__(self, rec, 'groups')
        self.__dict__['items'] = []

    def size(self):
        return len(self.items)

    def push_back(self, g):
        c = Cpp(self._rec, 'Group')
        c[0] = g
        self.items.append(c)

    def clear(self):
        del self.items[:]

    def __getitem__(self, i):
        return self.items[i] if pyload.inside(self.items, i) else Cpp(self._rec, 'Group')


class VecXf(list):
    def __init__(self, n=0):
        list.__init__(self, [0] * n)

    def size(self):
        return len(self)

    def __setitem__(self, i, x):
        if pyload.inside(self, i):
            list.__setitem__(self, i, pyload.coerce('float', x))

    def __getitem__(self, i):
        return list.__getitem__(self, i) if pyload.inside(self, i) else 0


class MatXf(object):
    def __init__(self, r=0, c=0):
        self.a = [[0] * c for _ in range(r)]
        self.c = c

    def rows(self):
        return len(self.a)

    def cols(self):
        return self.c

    def set(self, i, j, x):
        if pyload.inside(self.a, i) and pyload.inside(self.a[i], j):
            self.a[i][j] = pyload.coerce('float', x)

    def get(self, i, j):
        return self.a[i][j] if pyload.inside(self.a, i) and pyload.inside(self.a[i], j) else 0


class Buffer(object):
    """a one-dimensional float32 array argument; strided: every other element of a larger one"""

    def __init__(self, xs, strided=False):
        self.strided = strided
        self.mem = [y for x in xs for y in (x, 1000.)] if strided else list(xs)

    @property
    def xs(self):
        return self.mem[::2] if self.strided else self.mem

    @property
    def shape(self):
        return (len(self.xs),)

    @property
    def data(self):
        return self.mem

    def resize(self, shape):
        if self.strided:
            raise ValueError('resize only works on single-segment arrays')
        if int(shape[0]) != len(self.mem):
            raise ValueError('cannot resize an array that is referenced')

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        return self.xs[i]

    def __iter__(self):
        return iter(self.xs)

    def __setitem__(self, i, x):
        list.__setitem__(self.mem, 2 * i if self.strided else i, x)


def memcpy(dst, src, n):
    n = int(n)
    if not (0 <= n <= 4 * len(dst) and n <= 4 * len(src)):
        pyload.OUTSIDE[0]()
        n = 4 * max(0, min(len(dst), len(src), n // 4))
    for i in range(n // 4):
        list.__setitem__(dst, i, list.__getitem__(src, i))


class Lp(object):
    """modules with recorders in place of the C++ classes"""

    def __init__(self, v):
        self.v, self.log, self.answers, self.dim = v, [], {}, 3
        self.rng = Cpp(self.rec, 'rng')
        L = v.loader
        m = pystubs.module
        ei = m('distributions._eigen_h', VectorXf=VecXf, MatrixXf=MatXf, float_op_set2=lambda a, i, j, x: a.set(i, j, x),
               float_op_get2=lambda a, i, j: a.get(i, j))
        base = dict(get_rng=lambda: self.rng, numpy=L.mods['numpy'])
        L.mods['distributions.global_rng'] = m('distributions.global_rng', get_rng=lambda: self.rng)
        L.mods['distributions._eigen_h'] = ei
        L.mods['libc.string'] = m('libc.string', memcpy=memcpy)
        L.mods['libc.stdint'] = m('libc.stdint', uint32_t=int)
        L.mods['cpython'] = m('cpython', PyObject=object)
        L.b['sizeof'] = lambda t: 4
        L.mods.pop('distributions.lp.vector')
        L.mods.pop('distributions._eigen')
        L.inject['distributions.lp.vector'] = {}
        L.inject['distributions._eigen'] = dict(VectorXf=VecXf, MatrixXf=MatXf, _h=ei)
        V = L.load('distributions.lp.vector')
        V.VectorFloat = lambda: pyload.Vector('float')
        E = L.load('distributions._eigen')
        base.update(VectorFloat=V.VectorFloat, vector_float_from_ndarray=V.vector_float_from_ndarray,
                    vector_float_to_ndarray=V.vector_float_to_ndarray, VectorXf=VecXf, MatrixXf=MatXf,
                    **{k: getattr(E, k) for k in ('to_eigen_vecf', 'to_eigen_matf', 'to_np_1darray', 'to_np_2darray')})
        self.base = base

    def cpp(self, kind):
        def make(*a):
            c = Cpp(self.rec, kind)
            if kind == 'Shared':
                c.__dict__['dim'] = self.dim
            return c
        return make

    def mixture(self):
        c = Cpp(self.rec, 'Mixture')
        c.__dict__['groups'] = Groups(self.rec)
        return c

    def rec(self, obj, name, args):
        f = self.answers.get(name)
        r = f(obj, *args) if f else None
        self.log.append((obj, name, args))
        return r

    def function(self, name):
        return lambda *a: self.rec(None, name, a)

    def models(self, name):
        L, v = self.v.loader, self.v
        L.mods.pop('distributions.lp.models._' + name)
        h = pystubs.module('_h', Shared=self.cpp('Shared'), Group=self.cpp('Group'), Sampler=self.cpp('Sampler'),
                           Mixture=lambda: self.mixture())
        L.inject['distributions.lp.models._' + name] = dict(self.base, _h=h)
        m = L.load('distributions.lp.models._' + name)
        L.mods['_' + name] = m
        L.inject['distributions.lp.models.' + name] = dict(self.base)
        return L.load('distributions.lp.models.' + name)

    def same(self, label, a, b):
        v = self.v
        if isinstance(a, Cpp) or isinstance(b, Cpp):
            v.check(label, a is b)
        elif isinstance(a, VecXf) or isinstance(b, VecXf):
            v.check(label, len(a) == len(b))
            if len(a) == len(b):
                for x, y in zip(a, b):
                    v.close(label, x, y)
        elif a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            v.check(label, a is b or a == b)
        else:
            v.same(label, a, b)

    def expect(self, name, call, obj, args, answer=NONE, rng=True, method=None):
        """call() makes one C++ call obj.method(*args, rng) and returns its answer"""
        v, method = self.v, method or name
        del self.log[:]
        if answer is not NONE:
            self.answers[method] = answer if callable(answer) else (lambda *a: answer)
        r = call()
        v.check(name + ' makes one call', len(self.log) == 1)
        if len(self.log) != 1:
            return r
        o, n, a = self.log[0]
        want = list(args) + ([self.rng] if rng else [])
        v.check(name + ' calls its namesake on the right object', o is obj and n == method)
        v.check(name + ' passes every argument', len(a) == len(want))
        if len(a) == len(want):
            for x, y in zip(a, want):
                self.same(name + ' passes its arguments on', x, y)
        return r

    def works(self, label, call, buf, want):
        """an unusual array is rejected or treated like any other"""
        v = self.v
        try:
            call()
        except pysym.Unsupported:
            raise
        except Exception:
            v.check(label, True)
            return
        v.check(label, len(buf) == len(want))
        for x, y in zip(buf.xs, want):
            v.close(label, x, y)

    def value(self, name):
        v = self.v
        if name == 'bb':
            x = bool(v.choice('value', 2))
            return x, x
        if name == 'nich':
            x = v.real('value', -100, 100)
            return x, x
        if name == 'niw':
            d = 1 + v.choice('dim', 3)
            xs = [v.real('value', -100, 100) for _ in range(d)]
            w = VecXf(d)
            for i, x in enumerate(xs):
                list.__setitem__(w, i, x)
            return v.arr(xs), w
        x = v.int('value', 0, 10 ** 6)
        return x, x


def group(v, cfg):
    L = Lp(v)
    n = cfg['model']
    M = L.models(n)
    s, g, h = M.Shared(), M.Group(), M.Group()
    S, G = s.ptr, g.ptr
    x, w = L.value(n)
    k = v.int('count', 0, 10 ** 6)
    r = v.real('score', -1000, 1000)
    v.check('objects of their own', G is not h.ptr)
    L.expect('init', lambda: g.init(s), G, [S])
    if n == 'dd':
        v.check('dimension taken from the shared parameters', g.dim == L.dim)
    L.expect('add_value', lambda: g.add_value(s, x), G, [S, w])
    L.expect('add_repeated_value', lambda: g.add_repeated_value(s, x, k), G, [S, w, k])
    L.expect('remove_value', lambda: g.remove_value(s, x), G, [S, w])
    L.expect('merge', lambda: g.merge(s, h), G, [S, h.ptr])
    v.close('score_value returns the score', L.expect('score_value', lambda: g.score_value(s, x), G, [S, w], r), r)
    v.close('score_data returns the score', L.expect('score_data', lambda: g.score_data(s), G, [S], r), r)
    y = L.expect('sample_value', lambda: g.sample_value(s), G, [S], w)
    L.same('sample_value returns the value', v.arr(list(y)) if n == 'niw' else y, v.arr(list(w)) if n == 'niw' else w)
    sm = M.Sampler()
    L.expect('Sampler.init', lambda: sm.init(s, g), sm.ptr, [S, G], method='init')
    y = L.expect('Sampler.eval', lambda: sm.eval(s), sm.ptr, [S], w, method='eval')
    L.same('Sampler.eval returns the value', v.arr(list(y)) if n == 'niw' else y, v.arr(list(w)) if n == 'niw' else w)


def shared(v, cfg):
    """the process behind dpd's shared parameters"""
    L = Lp(v)
    M = L.models(cfg['model'])
    s = M.Shared()
    x, w = L.value(cfg['model'])
    if cfg['model'] == 'dpd':
        L.expect('add_value', lambda: s.add_value(x), s.ptr, [w])
        L.expect('remove_value', lambda: s.remove_value(x), s.ptr, [w])
        L.expect('realize', lambda: s.realize(), s.ptr, [])
    else:
        s.add_value(x)
        s.remove_value(x)
        s.realize()
        v.check('other models keep no state of values', L.log == [])


def sample_group(v, cfg):
    L = Lp(v)
    n = cfg['model']
    M = L.models(n)
    s = M.Shared()
    k = v.choice('size', 4)
    ws = []

    def draw(o, *a):
        ws.append(L.value(n)[1])
        return ws[-1]
    L.answers['eval'] = draw
    out = M.sample_group(s, k)
    log = [c for c in L.log if c[1] != 'init' or c[0]._kind != 'Group']
    for o, name, a in L.log:
        if o._kind == 'Group':
            v.check('an empty group', name == 'init' and len(a) == 2 and a[0] is s.ptr and a[1] is L.rng)
    v.check('one sampler evaluated once for each value', [c[1] for c in log] == ['init'] + ['eval'] * k and
            all(c[0] is log[0][0] and c[0]._kind == 'Sampler' for c in log))
    v.check('sampler of an empty group', len(log[0][2]) == 3 and log[0][2][0] is s.ptr and
            log[0][2][1]._kind == 'Group' and log[0][2][2] is L.rng)
    for c in log[1:]:
        v.check('sampler given the shared parameters', len(c[2]) == 2 and c[2][0] is s.ptr and c[2][1] is L.rng)
    v.check('as many values as asked for', len(out) == k)
    for a, b in zip(out, ws):
        L.same('the values drawn, in order', v.arr(list(a)) if n == 'niw' else a, v.arr(list(b)) if n == 'niw' else b)


def mixture(v, cfg):
    L = Lp(v)
    n = cfg['model']
    M = L.models(n)
    s, m = M.Shared(), M.Mixture()
    m.scores = pyload.Vector('float')
    S, X = s.ptr, m.ptr
    x, w = L.value(n)
    k = v.choice('groups', 3)
    gs = [M.Group() for _ in range(k)]
    for g in gs:
        m.append(g)
    v.check('appended', len(m) == k and [c._from for c in X.groups.items] == [g.ptr for g in gs])
    for i in range(k):
        v.check('indexing copies the group', m[i].ptr._from is X.groups.items[i] and m[i].ptr is not X.groups.items[i])
    i = v.int('groupid', -3, 5)
    if i < 0 or i >= k:
        v.expect_error('group ids out of range are rejected', lambda: m[i])
    j = v.int('id', 0, 10 ** 6)
    r = v.real('score', -1000, 1000)
    L.expect('init', lambda: m.init(s), X, [S])
    L.expect('add_group', lambda: m.add_group(s), X, [S])
    L.expect('remove_group', lambda: m.remove_group(s, j), X, [S, j], rng=False)
    L.expect('add_value', lambda: m.add_value(s, j, x), X, [S, j, w])
    L.expect('remove_value', lambda: m.remove_value(s, j, x), X, [S, j, w])
    v.close('score_value_group returns the score', L.expect(
        'score_value_group', lambda: m.score_value_group(s, j, x), X, [S, j, w], r), r)
    v.close('score_data returns the score', L.expect('score_data', lambda: m.score_data(s), X, [S], r), r)
    # the vector of scores, twice, with a group more in between
    for step in range(2):
        n = len(m)
        old = [v.real('old', -100, 100) for _ in range(n)]
        add = [v.real('term', -100, 100) for _ in range(n)]

        def score(o, sh, val, scores, rng):
            v.check('one score for each group', len(scores) == n)
            for i in range(min(n, len(scores))):
                scores[i] = scores[i] + add[i]
        b = Buffer(old)
        del L.log[:]
        L.answers['score_value'] = score
        m.score_value(s, x, b)
        v.check('score_value makes one call', len(L.log) == 1 and L.log[0][0] is X and L.log[0][1] == 'score_value')
        a = L.log[0][2]
        v.check('score_value passes its arguments on', len(a) == 4 and a[0] is S and a[3] is L.rng)
        L.same('score_value passes its arguments on', a[1], w)
        v.check('as many scores as groups', len(b) == n)
        for i in range(min(n, len(b))):
            v.close('scores are added to what the caller had', b.xs[i], old[i] + add[i])
        v.expect_error('scores of another length are rejected', lambda: m.score_value(s, x, Buffer(old + [0])))
        if n:
            b = Buffer(old, True)
            L.works('strided arrays are handled or rejected', lambda: m.score_value(s, x, b), b, [old[i] + add[i] for i in range(n)])
        m.append(M.Group())
    m.clear()
    v.check('cleared', len(m) == 0)


# ---- clustering, trackers, functions

class Ids(object):
    def __init__(self, ids):
        self.ids = ids


def clustering_module(L):
    v = L.v

    def cls(kind, fields):
        class C(Cpp):
            def __init__(self):
                Cpp.__init__(self, L.rec, kind)
                self.__dict__.update(fields)

            def __setattr__(self, k, x):
                self.__dict__[k] = pyload.coerce(FIELDS[k], x)
            Mixture = staticmethod(lambda: Cpp(L.rec, kind + 'Mixture'))
        return C

    class Assignments(dict):
        def begin(self):
            return pystubs.Iter([pystubs.Entry(*e) for e in self.items()], 0)

        def end(self):
            return pystubs.Iter([], len(self))
    v.loader.inject['distributions.lp.clustering'] = dict(
        L.base, PitmanYor_cc=cls('PitmanYor', dict(alpha=0, d=0)), LowEntropy_cc=cls('LowEntropy', dict(dataset_size=0)),
        Assignments=Assignments, count_assignments_cc=L.function('count_assignments'))
    return v.loader.load('distributions.lp.clustering')


FIELDS = dict(alpha='float', d='float', dataset_size='int')


def clustering(v, cfg):
    L = Lp(v)
    C = clustering_module(L)
    if cfg['which'] == 'py':
        raw = dict(alpha=v.real('alpha', 1. / 1024, 1024), d=v.real('d', 0, .99))
        m, m2, X = C.PitmanYor(**raw), C.PitmanYor(), C.PitmanYor.Mixture()
        v.close('alpha', m.alpha, raw['alpha'])
        v.close('d', m.d, raw['d'])
        v.same('default', m2.dump(), dict(alpha=1, d=0))
    else:
        raw = dict(dataset_size=v.int('dataset_size', 0, 10 ** 6))
        m, m2, X = C.LowEntropy(**raw), C.LowEntropy(), C.LowEntropy.Mixture()
        v.close('dataset size', m.dataset_size, raw['dataset_size'])
        v.same('default', m2.dump(), dict(dataset_size=0))
    v.same('parameters', m.dump(), raw)
    a, b, c, d = [v.int('size', 0, 10 ** 6) for _ in range(4)]
    r = v.real('score', -1000, 1000)
    for name in ('score_add_value', 'score_remove_value'):
        f = getattr(m, name)
        v.close(name + ' returns the score', L.expect(name, lambda: f(a, b, c, d), m.ptr, [a, b, c, d], r, rng=False), r)
        L.expect(name, lambda: f(a, b, c), m.ptr, [a, b, c, 1], r, rng=False)
    counts = [v.int('count', 0, 10 ** 6) for _ in range(v.choice('groups', 4))]
    keep = list(counts)
    v.close('score_counts returns the score', L.expect('score_counts', lambda: m.score_counts(counts), m.ptr, [keep], r,
                                                       rng=False), r)
    v.same('counts are left alone', counts, keep)
    out = L.expect('sample_assignments', lambda: m.sample_assignments(a), m.ptr, [a], lambda o, *x: [0, 2, 1])
    v.same('sample_assignments returns the assignments', list(out), [0, 2, 1])
    # mixture
    g = v.int('groupid', 0, 10 ** 6)
    del L.log[:]
    X.init(m, counts)
    v.check('counts set, then initialised', [e[:2] for e in L.log] == [(X.ptr, 'set_counts'), (X.ptr, 'init')])
    v.same('counts passed on', list(L.log[0][2][0]), keep)
    v.check('initialised with the model', len(L.log[1][2]) == 1 and L.log[1][2][0] is m.ptr)
    yes = bool(v.choice('changed', 2))
    for name in ('add_value', 'remove_value'):
        f = getattr(X, name)
        v.check(name + ' says whether groups changed', L.expect(name, lambda: f(m, g), X.ptr, [m.ptr, g], yes, rng=False) == yes)
    ids = [v.int('id', 0, 10 ** 6) for _ in range(v.choice('empties', 3))]
    items = pystubs.Iter(ids, 0)
    L.answers['empty_groupids_begin'] = lambda o: pystubs.Iter(ids, 0)
    L.answers['empty_groupids_end'] = lambda o: pystubs.Iter([], len(ids))
    v.same('ids of the empty groups', list(X.empty_groupids), ids)
    n = v.choice('size', 4)
    L.answers['size'] = lambda o: n
    v.check('length', len(X) == n)
    scores = [v.real('term', -100, 100) for _ in range(n)]

    def score(o, mm, out):
        v.check('scored with the model', mm is m.ptr)
        v.check('room for one score for each group', len(out) == n)
        for i in range(min(n, len(out))):
            out[i] = scores[i]
    L.answers['score_value'] = score
    buf = Buffer([7.] * n)
    X.score_value(m, buf)
    v.same('scores returned', buf.xs, scores)
    for b, w in ((Buffer([7.] * (n + 1)), 'arrays of another length are resized or rejected'),
                 (Buffer([7.] * (n + 1), True), 'strided arrays of another length are handled or rejected'),
                 (Buffer([7.] * n, True), 'strided arrays are handled or rejected')):
        L.works(w, lambda: X.score_value(m, b), b, scores)


def assignments(v, cfg):
    L = Lp(v)
    C = clustering_module(L)
    n = v.choice('size', 4)
    a = {10 * i: v.int('group', 0, 1000) for i in range(n)}
    L.answers['count_assignments'] = lambda o, x: [3, 1, 2]
    out = C.count_assignments(a)
    v.same('counts returned', list(out), [3, 1, 2])
    v.check('one call', len(L.log) == 1 and len(L.log[0][2]) == 1)
    v.same('assignments passed on', dict(L.log[0][2][0]), a)


def tracker(v, cfg):
    L = Lp(v)
    v.loader.inject['distributions.lp.mixture'] = dict(L.base, MixtureIdTracker_cc=L.cpp('Tracker'))
    t = v.loader.load('distributions.lp.mixture').MixtureIdTracker()
    n, r = v.int('n', 0, 10 ** 6), v.int('id', 0, 10 ** 6)
    L.expect('init', lambda: t.init(n), t.ptr, [n], rng=False)
    L.expect('init', lambda: t.init(), t.ptr, [0], rng=False)
    L.expect('add_group', lambda: t.add_group(), t.ptr, [], rng=False)
    L.expect('remove_group', lambda: t.remove_group(n), t.ptr, [n], rng=False)
    for name in ('packed_to_global', 'global_to_packed'):
        v.close(name + ' returns the id', L.expect(name, lambda: getattr(t, name)(n), t.ptr, [n], r, rng=False), r)


def functions(v, cfg):
    L = Lp(v)
    f = L.function
    v.loader.inject['distributions.lp.random'] = dict(
        L.base, rng_t=lambda *a: Cpp(L.rec, a), log_sum_exp_cc=f('log_sum_exp'),
        sample_prob_from_scores_overwrite=f('sample_prob'), score_from_scores_overwrite=f('score'),
        sample_pair_from_urn_cc=f('pair'), sample_discrete_cc=f('discrete'), score_student_t_cc=f('student'))
    R = v.loader.load('distributions.lp.random')
    n = 1 + v.choice('size', 3)
    xs = [v.real('x', -100, 100) for _ in range(n)]
    r, k = v.real('result', -100, 100), v.int('choice', 0, 10)

    def clobber(ret):
        def g(o, *a):
            for x in a:
                if isinstance(x, pyload.Vector):
                    seen.append(list(x))
                    for i in range(len(x)):
                        list.__setitem__(x, i, 0)
            return ret
        return g
    seen = []
    keep = list(xs)
    v.close('log_sum_exp returned', L.expect('log_sum_exp', lambda: R.log_sum_exp(xs), None, [keep], r, rng=False), r)
    L.answers['sample_prob'] = clobber((k, r))
    out = R.sample_prob_from_scores(xs)
    v.same('sample and probability returned', list(out), [k, r])
    L.answers['score'] = clobber(r)
    p = R.prob_from_scores(k, xs)
    v.close('probability of the choice', v.log(p), r)
    v.close('of that choice', L.log[-1][2][1], k)
    v.check('with the generator', L.log[-1][2][0] is L.rng and L.log[-2][2][0] is L.rng)
    v.same('scores passed on', seen, [keep, keep])
    v.same('the argument is left alone', xs, keep)
    b = Buffer(xs)
    del L.log[:]
    L.answers['discrete'] = lambda o, *a: k
    v.close('choice returned', R.sample_discrete(b), k)
    a = L.log[0][2]
    v.check('discrete passes the generator, the size and the array', len(a) == 3 and a[0] is L.rng and a[1] == n)
    v.same('discrete passes the probabilities', list(a[2])[:n], xs)
    try:
        R.sample_discrete(Buffer(xs, True))
    except pysym.Unsupported:
        raise
    except Exception:
        v.check('strided probabilities rejected', True)
    else:
        v.same('strided probabilities are passed in order', list(L.log[-1][2][2])[:n], xs)
    urn = ['a', 'b', 'c'][:n]
    L.answers['pair'] = lambda o, g, u: pystubs.Entry(u[0], u[n - 1]) if g is L.rng and list(u) == urn else None
    v.check('pair from the urn', R.sample_pair_from_urn(list(urn)) == (urn[0], urn[n - 1]))
    d = 1 + v.choice('dim', 2)
    x, mu = [v.arr([v.real('y', -100, 100) for _ in range(d)]) for _ in range(2)]
    S = v.arr([[v.real('s', -100, 100) for _ in range(d)] for _ in range(d)])
    L.answers['student'] = lambda o, *a: r
    nu = v.real('nu', .5, 100)
    v.close('score returned', R.score_student_t(x, nu, mu, S), r)
    a = L.log[-1][2]
    v.same('arguments in order', [list(a[0]), a[1], list(a[2]), a[3].a], [list(x), nu, list(mu), [list(q) for q in S]])
    P = v.loader
    P.inject['distributions.lp.special'] = {'_fast_log': f('log'), '_fast_lgamma': f('lgamma'), '_fast_lgamma_nu': f('nu'),
                                            '_log_stirling1_row': f('row')}
    P = P.load('distributions.lp.special')
    y = v.real('y', 1. / 1024, 1024)
    for name, fn in (('log', P.fast_log), ('lgamma', P.fast_lgamma), ('nu', P.fast_lgamma_nu)):
        v.close(name + ' returned', L.expect(name, lambda: fn(y), None, [y], r, rng=False), r)
    v.same('row returned', list(L.expect('row', lambda: P.log_stirling1_row(k), None, [k], lambda o, *a: [1, 2], rng=False)), [1, 2])


def matrices(v, cfg):
    """conversions between arrays and matrices keep every entry"""
    L = Lp(v)
    r, c = 1 + v.choice('rows', 3), 1 + v.choice('cols', 3)
    a = v.arr([[v.real('a', -100, 100) for _ in range(c)] for _ in range(r)])
    x = v.arr([v.real('x', -100, 100) for _ in range(c)])
    E = L.base
    w = E['to_eigen_vecf'](x)
    v.same('vector', list(w), list(x))
    v.same('and back', list(E['to_np_1darray'](w)), list(x))
    m = E['to_eigen_matf'](a)
    v.same('matrix', m.a, [list(q) for q in a])
    b = E['to_np_2darray'](m)
    v.check('shape', b.shape == (r, c))
    v.same('and back', [list(q) for q in b], [list(q) for q in a])
