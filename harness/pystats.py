"""C01-C04 for the Python flavours: one model (model=NAME flavour=dbg|hp|lp).

Ranges as in models.h.  Contents are set and read through load/dump (the public interface).
"""
CMAX = 10 ** 6
DD_DIM = 3
KEYS = [7, 0, 4000000000, 21]


class Model(object):
    def __init__(self, v, cfg):
        self.v, self.name, self.flavour = v, cfg['model'], cfg['flavour']
        self.dim = int(cfg.get('dim', 2))
        self.mod = v.load('distributions.%s.models.%s' % (self.flavour, self.name))
        v.forbid = True

    def raw_shared(self):
        v = self.v
        R = lambda n, lo=1. / 1024, hi=1024: v.real(n, lo, hi)
        n = self.name
        if n == 'bb':
            return dict(alpha=R('alpha'), beta=R('beta'))
        if n == 'bnb':
            return dict(alpha=R('alpha'), beta=R('beta'), r=v.int('r', 1, 10 ** 6))
        if n == 'gp':
            return dict(alpha=R('alpha'), inv_beta=R('inv_beta'))
        if n == 'nich':
            return dict(mu=R('mu', -100, 100), kappa=R('kappa'), sigmasq=R('sigmasq'), nu=R('nu'))
        if n == 'dd':
            return dict(alphas=[R('alpha') for _ in range(DD_DIM)])
        if n == 'dpd':
            raw = dict(gamma=R('gamma'), alpha=R('alpha'), betas={}, counts={})
            for i in range(self.dim):
                raw['betas'][KEYS[i]] = R('beta', 1. / 1024, 1)
                raw['counts'][KEYS[i]] = v.int('scount', 1, CMAX)
            v.assume(sum(raw['betas'].values()) < .999)
            return raw
        if n == 'niw':
            d = self.dim
            mu = [R('mu', -10, 10) for _ in range(d)]
            kappa, nu = R('kappa', 1. / 64, 64), R('nu', d, 64)
            a = R('l00', .25, 4)
            psi = [[a * a]]
            if d > 1:
                b, c = R('l10', -4, 4), R('l11', .25, 4)
                psi = [[a * a, a * b], [a * b, b * b + c * c]]
            return dict(mu=v.arr(mu), kappa=kappa, psi=v.arr(psi), nu=nu)

    def shared(self):
        s = self.mod.Shared()
        s.load(self.raw_shared())
        return s

    def raw_group(self):
        v = self.v
        n = self.name
        I = lambda k, hi=CMAX: v.int(k, 0, hi)
        if n == 'bb':
            return dict(heads=I('heads'), tails=I('tails'))
        if n == 'bnb':
            c, s = I('count'), I('sum')
            v.assume((c > 0) | (s == 0) if v.sym else c > 0 or s == 0)
            return dict(count=c, sum=s)
        if n == 'gp':
            c = I('count')
            if c > 0:
                return dict(count=c, sum=I('sum'), log_prod=v.real('log_prod', 0, 10 ** 6))
            return dict(count=c, sum=0, log_prod=0.)
        if n == 'nich':
            c = I('count')
            r = dict(count=c, mean=0., count_times_variance=0.)
            if c > 0:
                r['mean'] = v.real('mean', -100, 100)
            if c > 1:
                r['count_times_variance'] = v.real('ctv', 0, 1000)
            return r
        if n == 'dd':
            return dict(counts=[I('count') for _ in range(DD_DIM)])
        if n == 'dpd':
            counts = {}
            for i in range(self.dim):
                c = I('count')
                if c > 0:
                    counts[KEYS[i]] = c
            return dict(counts=counts)
        if n == 'niw':
            d = self.dim
            c = I('count', 1000)
            z = [0.] * d
            r = dict(count=c, sum_x=v.arr(z), sum_xxT=v.arr([z] * d))
            if c > 0:
                m0, a = v.real('m0', -10, 10), v.real('c00', 0, 4)
                r['sum_x'][0] = c * m0
                r['sum_xxT'][0, 0] = c * m0 * m0 + a * a
                if d > 1:
                    m1, b, e = v.real('m1', -10, 10), v.real('c10', -4, 4), v.real('c11', 0, 4)
                    r['sum_x'][1] = c * m1
                    r['sum_xxT'][0, 1] = r['sum_xxT'][1, 0] = c * m0 * m1 + a * b
                    r['sum_xxT'][1, 1] = c * m1 * m1 + b * b + e * e
            return r

    def empty(self, s):
        g = self.mod.Group()
        g.init(s)
        return g

    def group(self, s):
        g = self.empty(s)
        g.load(self.raw_group())
        return g

    def copy(self, s, g):
        """an independent group with the same contents"""
        h = self.empty(s)
        h.load(g.dump())
        return h

    def value(self):
        v = self.v
        n = self.name
        if n == 'bb':
            return bool(v.choice('v', 2))
        if n in ('bnb', 'gp'):
            return v.int('v', 0, 1000)
        if n == 'nich':
            return v.real('v', -100, 100)
        if n == 'dd':
            return v.choice('v', DD_DIM)
        if n == 'dpd':
            return KEYS[v.choice('v', self.dim)]
        return v.arr([v.real('v', -10, 10) for _ in range(self.dim)])

    def stats(self, g):
        d = g.dump()
        if self.name == 'dpd' and hasattr(g, 'total'):
            d = dict(d, total=g.total)
        return d

    def count(self, g):
        d = g.dump()
        n = self.name
        if n == 'bb':
            return d['heads'] + d['tails']
        if n == 'dd':
            return sum(d['counts'])
        if n == 'dpd':
            return sum(d['counts'].values())
        return d['count']

    def same(self, a, b, label):
        self.v.same(label, self.stats(a), self.stats(b))


def add_remove(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    g = M.group(s)
    h = M.copy(s, g)
    x = M.value()
    h.add_value(s, x)
    h.remove_value(s, x)
    M.same(g, h, 'add then remove restores the statistics')


def add_order(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    g = M.group(s)
    h = M.copy(s, g)
    x, y = M.value(), M.value()
    g.add_value(s, x)
    g.add_value(s, y)
    h.add_value(s, y)
    h.add_value(s, x)
    M.same(g, h, 'order of additions is irrelevant')
    g.remove_value(s, x)
    k = M.copy(s, h)
    k.remove_value(s, x)
    M.same(g, k, 'order of additions is irrelevant after a removal')
    g.remove_value(s, y)
    h.remove_value(s, y)
    h.remove_value(s, x)
    M.same(g, h, 'order of removals is irrelevant')


def from_empty(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    e, g = M.empty(s), M.empty(s)
    x, y = M.value(), M.value()
    g.add_value(s, x)
    one = M.copy(s, g)
    g.add_value(s, y)
    g.remove_value(s, y)
    M.same(g, one, 'back to one value')
    g.add_value(s, y)
    g.remove_value(s, x)
    o2 = M.empty(s)
    o2.add_value(s, y)
    M.same(g, o2, 'first value removed')
    g.remove_value(s, y)
    M.same(g, e, 'back to empty')
    g.add_value(s, x)
    g.init(s)
    M.same(g, e, 'init clears a used group')


def merge(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    a, b = M.group(s), M.group(s)
    x = M.value()
    ab = M.copy(s, a)
    ab.merge(s, b)
    bv = M.copy(s, b)
    bv.add_value(s, x)
    abv = M.copy(s, a)
    abv.merge(s, bv)
    ab_v = M.copy(s, ab)
    ab_v.add_value(s, x)
    M.same(abv, ab_v, 'merge of b+v equals merge of b, then v')
    ba = M.copy(s, b)
    ba.merge(s, a)
    M.same(ab, ba, 'merge is symmetric')
    v.eq('merged count', M.count(ab), M.count(a) + M.count(b))


def merge_empty(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    a, e, e2 = M.group(s), M.empty(s), M.empty(s)
    x = M.copy(s, a)
    x.merge(s, e)
    M.same(x, a, 'merging an empty group changes nothing')
    y = M.empty(s)
    y.merge(s, a)
    M.same(y, a, 'merging into an empty group copies')
    z = M.empty(s)
    z.merge(s, e2)
    M.same(z, e, 'merging two empty groups gives an empty group')
    M.same(e2, e, 'source of a merge is unchanged')
    if hasattr(M.mod.Group, 'from_values'):
        M.same(M.mod.Group.from_values(s), e, 'a group from no values is empty')


def build(M, s, na):
    a = M.empty(s)
    vs = []
    for _ in range(na):
        x = M.value()
        vs.append(x)
        a.add_value(s, x)
    return a, vs


def merge_values(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    na, nb = v.choice('na', 3), v.choice('nb', 3)
    a, va = build(M, s, na)
    b, vb = build(M, s, nb)
    c = M.empty(s)
    for x in va + vb:
        c.add_value(s, x)
    keep = M.stats(M.copy(s, b))
    a.merge(s, b)
    M.same(a, c, 'merge equals adding all values')
    v.same('source of a merge keeps its values', M.stats(b), keep)
    # the source stays independent of the target
    if vb:
        a.remove_value(s, vb[0])
        v.same('source of a merge keeps its values', M.stats(b), keep)
    M.same(M.mod.Group.from_values(s, va + vb), c, 'from_values adds every value')


def merge_scores(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    na, nb = v.choice('na', 2), v.choice('nb', 2)
    a, va = build(M, s, na)
    b, vb = build(M, s, nb)
    c = M.empty(s)
    for x in va + vb:
        c.add_value(s, x)
    a.merge(s, b)
    w = M.value()
    v.close('data score of a merged group', a.score_data(s), c.score_data(s))
    v.close('value score of a merged group', a.score_value(s, w), c.score_value(s, w))


def repeated(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    a = M.group(s)
    b = M.copy(s, a)
    x = M.value()
    n = 1 + v.choice('n', int(cfg.get('repmax', 3)))
    a.add_repeated_value(s, x, n)
    for _ in range(n):
        b.add_value(s, x)
    M.same(a, b, 'repeated equals one by one')


def repeated_empty(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    a, b = M.empty(s), M.empty(s)
    x = M.value()
    n = 1 + v.choice('n', int(cfg.get('repmax', 3)))
    a.add_repeated_value(s, x, n)
    for _ in range(n):
        b.add_value(s, x)
    M.same(a, b, 'repeated equals one by one, from empty')


def repeated_step(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    a = M.group(s)
    b = M.copy(s, a)
    x = M.value()
    n = v.int('n', 1, 1000)
    a.add_repeated_value(s, x, n + 1)
    b.add_repeated_value(s, x, n)
    b.add_value(s, x)
    M.same(a, b, 'n+1 repetitions are n and one more')


def chain(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    g = M.group(s)
    x = M.value()
    before = g.score_data(s)
    sv = g.score_value(s, x)
    g.add_value(s, x)
    v.close('predictive score is the increment of the data score', g.score_data(s) - before, sv)


def empty_score(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    g = M.empty(s)
    v.close('an empty group has data score zero', g.score_data(s), 0)


def exchange(v, cfg):
    M = Model(v, cfg)
    s = M.shared()
    g = M.group(s)
    h = M.copy(s, g)
    x, y = M.value(), M.value()
    a = g.score_value(s, x)
    g.add_value(s, x)
    a = a + g.score_value(s, y)
    b = h.score_value(s, y)
    h.add_value(s, y)
    b = b + h.score_value(s, x)
    v.close('sequential scores are exchangeable', a, b)
