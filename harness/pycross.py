"""C20, the Python half: another flavour given the hyperparameters, statistics and values of the C++ half
(cross.cc), or two Python flavours side by side."""
import importlib.util
import os

_spec = importlib.util.spec_from_file_location('vh_pystats', os.path.join(os.path.dirname(__file__), 'pystats.py'))
pystats = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(pystats)
SCALAR = {
    'bb': (('alpha', 'beta'), ('heads', 'tails')),
    'bnb': (('alpha', 'beta', 'r'), ('count', 'sum')),
    'gp': (('alpha', 'inv_beta'), ('count', 'sum', 'log_prod')),
    'nich': (('mu', 'kappa', 'sigmasq', 'nu'), ('count', 'mean', 'count_times_variance')),
}


def seq(v, name):
    return [v.imp('%s%d' % (name, i)) for i in range(v.imp(name.rpartition('.')[0] + ('.' if '.' in name else '') +
                                                         'n_' + name.rpartition('.')[2]))]


def raw_shared(v, m):
    if m in SCALAR:
        return {k: v.imp(k) for k in SCALAR[m][0]}
    if m == 'dd':
        return dict(alphas=seq(v, 'alphas'))
    if m == 'dpd':
        keys = seq(v, 'values')
        return dict(gamma=v.imp('gamma'), alpha=v.imp('alpha'), betas=dict(zip(keys, seq(v, 'betas'))),
                    counts=dict(zip(keys, seq(v, 'counts'))))
    mu, psi = seq(v, 'mu'), seq(v, 'psi')
    d = len(mu)
    return dict(mu=v.arr(mu), kappa=v.imp('kappa'), nu=v.imp('nu'), psi=v.arr([psi[i * d:i * d + d] for i in range(d)]))


def raw_group(v, m, p):
    if m in SCALAR:
        return {k: v.imp(p + k) for k in SCALAR[m][1]}
    if m == 'dd':
        return dict(counts=seq(v, p + 'counts'))
    if m == 'dpd':
        return dict(counts=dict(zip(seq(v, p + 'keys'), seq(v, p + 'values'))))
    x, xx = seq(v, p + 'sum_x'), seq(v, p + 'sum_xxt')
    d = len(x)
    return dict(count=v.imp(p + 'count'), sum_x=v.arr(x), sum_xxT=v.arr([xx[i * d:i * d + d] for i in range(d)]))


def value(v, m):
    if m == 'niw':
        return v.arr([v.imp('v%d' % i) for i in range(v.imp('n_mu'))])
    x = v.imp('v')
    return bool(v.conc(x)) if m == 'bb' else v.conc(x) if m in ('dd', 'dpd') else x


class Cross(object):
    def __init__(self, v, cfg):
        self.v, self.m = v, cfg['model']
        self.mod = v.load('distributions.%s.models.%s' % (cfg['flavour'], self.m))
        v.forbid = True
        if self.m == 'niw':             # dbg insists on it
            v.assume(v.imp('nu') >= v.imp('n_mu'))
        self.s = self.mod.Shared()
        self.s.load(raw_shared(v, self.m))

    def group(self, p='g.'):
        g = self.mod.Group()
        g.init(self.s)
        g.load(raw_group(self.v, self.m, p))
        return g

    def same(self, label, g, p):
        self.v.same(label, g.dump(), raw_group(self.v, self.m, p))


def scores(v, cfg):
    X = Cross(v, cfg)
    g = X.group()
    x = value(v, X.m)
    v.close('predictive scores agree', g.score_value(X.s, x), v.imp('score_value'))
    v.close('data scores agree', g.score_data(X.s), v.imp('score_data'))


def stats(v, cfg):
    X = Cross(v, cfg)
    x = value(v, X.m)
    g = X.mod.Group()
    g.init(X.s)
    X.same('empty groups agree', g, 'init.')
    g = X.group()
    g.add_value(X.s, x)
    X.same('groups agree after an addition', g, 'add.')
    g = X.group()
    g.add_repeated_value(X.s, x, v.imp('n'))
    X.same('groups agree after repeated additions', g, 'rep.')


def remove(v, cfg):
    X = Cross(v, cfg)
    g = X.group()
    g.remove_value(X.s, value(v, X.m))
    X.same('groups agree after a removal', g, 'rem.')


def merge(v, cfg):
    X = Cross(v, cfg)
    g = X.group()
    g.merge(X.s, X.group('h.'))
    X.same('groups agree after a merge', g, 'merge.')


# ---- clustering and utilities (C++ half: cross_le.cc)

def low_entropy(v):
    m = v.load('distributions.dbg.clustering').LowEntropy()
    m.load(dict(dataset_size=v.imp('dataset')))
    return m


def le_moves(v, cfg):
    m = low_entropy(v)
    g, k, n, e = v.imp('group'), v.imp('groups'), v.imp('sample'), v.imp('empty')
    more = 0
    if g > 0:
        more = 1
    if v.has('add'):
        v.close('scores of adding agree', m.score_add_value(g, k + more, n, e), v.imp('add'))
    if v.has('remove'):
        v.close('scores of removing agree', m.score_remove_value(g, k + 1, n, e), v.imp('remove'))


def le_counts(v, cfg):
    m = low_entropy(v)
    v.close('scores of counts agree', m.score_counts([v.imp('c%d' % i) for i in range(v.imp('groups'))]), v.imp('score'))


def le_small(v, cfg):
    m = low_entropy(v)
    v.near('scores of small counts agree', m.score_counts([v.imp('c%d' % i) for i in range(v.imp('groups'))]),
           v.imp('score'), 1e-4)


def le_partition(v, cfg):
    n = v.imp('n')
    m = v.load('distributions.dbg.clustering').LowEntropy(100000)
    v.near('log partition functions agree', m.log_partition_function(n), v.imp('log_z'), 1e-4)


def to_probs(v, cfg):
    n = v.imp('n')
    p = v.load('distributions.util').scores_to_probs([v.imp('s%d' % i) for i in range(n)])
    v.check('as many probabilities as scores', len(p) == n)
    for i in range(n):
        v.close('probabilities of scores agree', p[i], v.imp('p%d' % i))
