"""Python flavours: normalisation (C07), samplers (C11, C21, C23), conversions (C12), sticks (C15), quietness (C22)."""
import importlib.util
import math
import os

_spec = importlib.util.spec_from_file_location('vh_pystats', os.path.join(os.path.dirname(__file__), 'pystats.py'))
pystats = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(pystats)
KEYS = pystats.KEYS


def model(v, cfg):
    M = pystats.Model(v, cfg)
    return M, M.shared()


# ---- C07

def outcomes(M, s):
    if M.name == 'bb':
        return [False, True]
    if M.name == 'dd':
        return list(range(pystats.DD_DIM))
    return KEYS[:M.dim] + [M.mod.OTHER]


def sums(v, cfg):
    M, s = model(v, cfg)
    g = M.group(s)
    v.close('probabilities of all values sum to one', sum(v.exp(g.score_value(s, x)) for x in outcomes(M, s)), 1)
    x = outcomes(M, s)[0]
    g.add_value(s, x)
    v.close('probabilities of all values sum to one after an addition',
            sum(v.exp(g.score_value(s, x)) for x in outcomes(M, s)), 1)


# ---- C22

def quiet(v, cfg):
    """nothing but sampling draws (Model forbids draws), and scoring changes nothing"""
    M, s = model(v, cfg)
    g, h = M.group(s), M.group(s)
    kept, gs, hs = s.dump(), M.stats(g), M.stats(h)
    x = M.value()
    a = g.score_value(s, x)
    b = g.score_data(s)
    v.same('scoring leaves the group alone', M.stats(g), gs)
    v.close('scoring again gives the same', g.score_value(s, x), a)
    v.close('scoring again gives the same', g.score_data(s), b)
    g.merge(s, h)
    v.same('merging leaves its source alone', M.stats(h), hs)
    g.add_value(s, x)
    g.add_repeated_value(s, x, 2)
    g.remove_value(s, x)
    v.same('group operations leave the shared parameters alone', s.dump(), kept)


def quiet_sampler(v, cfg):
    """sampling changes neither the group nor the shared parameters"""
    M, s = model(v, cfg)
    g = M.group(s)
    kept, gs = s.dump(), M.stats(g)
    v.forbid = False
    g.sample_value(s)
    v.same('sampling leaves the group alone', M.stats(g), gs)
    v.same('sampling leaves the shared parameters alone', s.dump(), kept)
    v.forbid = True
    v.check('sampling draws', len(v.draws) > 0)


# ---- C11

def inverse(v, w, u, a, total):
    n = len(w)
    v.check('choice in range', 0 <= a < n)
    v.le('inverse of the cumulative distribution', sum(w[:a]), u * total)
    v.le('inverse of the cumulative distribution', u * total, sum(w[:a + 1]))
    v.lt('a choice of zero probability is never returned', 0, w[a]) if v.sym else v.check(
        'a choice of zero probability is never returned', w[a] > 0)


def weights(v, hi=100):
    n = 1 + v.choice('n', int(4))
    w = [v.real('weight', 0, hi) for _ in range(n)]
    return w


def one_uniform(v):
    v.check('one uniform draw', [d[0] for d in v.draws] == ['uniform'])
    return v.draws[-1][2]


def discrete(v, cfg):
    R = v.load('distributions.dbg.random')
    w = weights(v)
    total = sum(w)
    v.assume(total > 1. / 1024)
    a = R.sample_discrete(list(w)) if v.choice('total', 2) else R.sample_discrete(v.arr(w), total=total)
    inverse(v, w, one_uniform(v), a, total)


def discrete_log(v, cfg):
    R = v.load('distributions.dbg.random')
    n = 1 + v.choice('n', 4)
    sc = [v.real('score', -100, 100) for _ in range(n)]
    a = R.sample_discrete_log(list(sc))
    w = [v.exp(x - max(sc)) for x in sc]
    inverse(v, w, one_uniform(v), a, sum(w))


def bernoulli(v, cfg):
    R = v.load('distributions.dbg.random')
    p = v.real('p', 0, 1)
    b = R.sample_bernoulli(p)
    k, params, x = v.draws[0]
    v.check('one Bernoulli draw', len(v.draws) == 1 and k == 'bernoulli')
    v.close('with the probability asked for', params[0], p)
    v.check('returned', b == bool(x) and isinstance(b, bool))


# ---- C12

def probs(v, cfg):
    U = v.load('distributions.util')
    n = 1 + v.choice('n', 4)
    sc = [v.real('score', -100, 100) for _ in range(n)]
    keep = list(sc)
    p = U.scores_to_probs(sc)
    v.check('as many probabilities as scores', len(p) == n)
    v.same('the argument is left alone', sc, keep)
    v.close('probabilities sum to one', sum(p), 1)
    for i in range(n):
        v.le('probabilities are not negative', 0, p[i])
        v.close('probabilities have the ratios of the exponentiated scores', p[i] * v.exp(sc[0] - sc[i]), p[0])
    c = v.real('shift', -100, 100)
    q = U.scores_to_probs(v.arr([x + c for x in sc]))
    v.same('a constant added to every score changes nothing', list(q), list(p))


def probs_arr(v, cfg):
    """an array argument is not overwritten"""
    U = v.load('distributions.util')
    n = 1 + v.choice('n', 4)
    sc = v.arr([v.real('score', -100, 100) for _ in range(n)])
    keep = list(sc)
    p = U.scores_to_probs(sc)
    v.same('the argument is left alone', list(sc), keep)
    v.close('probabilities sum to one', sum(p), 1)


# ---- C21

def le_sample(v, cfg):
    C = v.load('distributions.dbg.clustering')
    v.numeric()
    size = v.choice('size', int(cfg.get('size', 3)) + 1)
    m = C.LowEntropy()
    m.load(dict(dataset_size=[max(1, size), size + 1, 47, 1000][v.choice('dataset_size', 4)]))
    a = m.sample_assignments(size)
    v.check('as many assignments as asked for', len(a) == size)
    v.check('one uniform draw each', [d[0] for d in v.draws] == ['uniform'] * size)
    opened = 0
    counts = []
    for i, g in enumerate(a):
        # the groups on offer: the nonempty ones and one that is empty
        if not counts or counts[-1] != 0:
            counts.append(0)
        v.check('ids are those of groups opened so far', 0 <= g < len(counts))
        if not 0 <= g < len(counts):
            return
        w = [v.exp(m.score_add_value(c, 0, i)) for c in counts]
        v.le('inverse of the cumulative distribution', sum(w[:g]), v.draws[i][2] * sum(w) + 1e-9)
        v.le('inverse of the cumulative distribution', v.draws[i][2] * sum(w), sum(w[:g + 1]) + 1e-9)
        counts[g] += 1


def partition(v, cfg):
    R = v.load('distributions.dbg.random')
    k = v.choice('groups', 4)
    counts = [v.choice('count', 3) for _ in range(k)]
    n = sum(counts)
    if n > 4:
        v.assume(False)
    items = ['x%d' % i for i in range(n)]
    if v.choice('bad', 2):
        v.expect_error('counts that do not sum to the items are rejected', lambda: R.sample_partition_from_counts(items + ['y'], counts))
        return
    p = R.sample_partition_from_counts(items, counts)
    v.check('as many items as asked for in every group', [len(x) for x in p] == counts)
    flat = sum(p, [])
    v.check('every item once', sorted(flat) == items)
    if n:
        v.check('in the order of one uniform permutation', [d[0] for d in v.draws] == ['permutation'] and
                flat == [items[i] for i in v.draws[0][2]])


# ---- C15

def mass(v, s, label):
    v.close('sticks and the rest sum to one' + label, sum(s.betas.values()) + s.beta0, 1)
    v.le('the rest is not negative' + label, 0, s.beta0)
    v.check('a value has a stick exactly while it is counted' + label, set(s.betas) == set(s.counts))
    for k in s.betas:
        v.le('sticks are not negative' + label, 0, s.betas[k])
    for k in s.counts:
        v.lt('counts are positive' + label, 0, s.counts[k])


def sticks(v, cfg):
    D = v.load('distributions.dbg.models.dpd')
    s = D.Shared()
    n = v.choice('sticks', 3)
    raw = dict(gamma=v.real('gamma', 1. / 1024, 1024), alpha=1.5, betas={}, counts={})
    for i in range(n):
        raw['betas'][KEYS[i]] = v.real('beta', 1. / 1024, 1)
        raw['counts'][KEYS[i]] = v.int('count', 1, 10 ** 6)
    if n:
        v.assume(sum(raw['betas'].values()) <= 1)
    s.load(raw)
    mass(v, s, ' when loaded')
    v.limit = 4
    for step in range(int(cfg.get('ops', 2))):
        op = v.choice('op', 3)
        had = dict(s.counts)
        rest, bs, nd = s.beta0, dict(s.betas), len(v.draws)
        if op == 2:
            s.realize()
            mass(v, s, ' after realize')
            v.close('realize leaves no rest', s.beta0, 0)
            for k in had:
                v.close('realize keeps the counts of known values', s.counts[k], had[k])
            for k in bs:
                v.close('realize keeps the sticks of known values', s.betas[k], bs[k])
            for k in set(s.counts) - set(had):
                v.close('realize counts a new value once', s.counts[k], 1)
            continue
        k = KEYS[v.choice('key', 3)]
        if op == 0:
            s.add_value(k)
            if k in had:
                v.check('known values draw nothing', len(v.draws) == nd)
                v.close('counted', s.counts[k], had[k] + 1)
                v.close('known sticks stay', s.betas[k], bs[k])
            else:
                v.close('counted', s.counts[k], 1)
                v.check('one beta draw', [d[0] for d in v.draws[nd:]] == ['beta'])
                v.same('from beta(1, gamma)', list(v.draws[nd][1]), [1, s.gamma])
                v.close('a stick of the drawn fraction of the rest', s.betas[k], rest * v.draws[nd][2])
            mass(v, s, ' after adding')
        else:
            if k not in had:
                v.expect_error('removing a value not counted is rejected', lambda: s.remove_value(k))
                return
            s.remove_value(k)
            v.close('counted', s.counts.get(k, 0), had[k] - 1)
            v.check('removal draws nothing', len(v.draws) == nd)
            mass(v, s, ' after removing')
        for j in had:
            if j != k:
                v.close('other counts stay', s.counts[j], had[j])
                v.close('other sticks stay', s.betas[j], bs[j])


def stick(v, cfg):
    R = v.load('distributions.dbg.random')
    v.limit = 4
    b = R.sample_stick(v.real('gamma', 1. / 1024, 1024))
    v.close('sticks sum to one', sum(b.values()), 1)
    v.check('numbered from zero', sorted(b) == list(range(len(b))) and len(b) == len(v.draws))
    for i in range(1, len(b)):
        f = v.draws[i][2], v.draws[i - 1][2]
        v.close('each a fraction of what was left', b[i] * f[1], b[i - 1] * (1 - f[1]) * f[0])


# ---- C23

def posterior(v, M, s, g):
    raw, c = s.dump(), g.dump()
    n = M.name
    if n == 'bb':
        return raw['alpha'] + c['heads'], raw['beta'] + c['tails']
    if n == 'bnb':
        return raw['alpha'] + raw['r'] * c['count'], raw['beta'] + c['sum']
    if n == 'gp':
        return raw['alpha'] + c['sum'], raw['inv_beta'] + c['count']
    if n == 'nich':
        k, N = raw['kappa'], c['count']
        kn, nn = k + N, raw['nu'] + N
        mu = (k * raw['mu'] + N * c['mean']) / kn
        d = raw['mu'] - c['mean']
        return mu, kn, (raw['nu'] * raw['sigmasq'] + c['count_times_variance'] + N * k * d * d / kn) / nn, nn
    if n == 'dd':
        return [a + b for a, b in zip(raw['alphas'], c['counts'])]
    if n == 'dpd':
        return {k: b * raw['alpha'] + c['counts'].get(k, 0) for k, b in raw['betas'].items()}
    mu0, k0, N = raw['mu'], raw['kappa'], c['count']
    kn = k0 + N
    mu = (k0 * mu0 + c['sum_x']) / kn
    d = range(len(mu0))
    psi = [[raw['psi'][i][j] + c['sum_xxT'][i][j] + k0 * mu0[i] * mu0[j] - kn * mu[i] * mu[j] for j in d] for i in d]
    return mu, kn, psi, raw['nu'] + N


def kinds(v, want):
    got = [d[0] for d in v.draws]
    v.check('draws from the named distributions', got == want)
    return got == want


def sample(v, cfg):
    M, s = model(v, cfg)
    v.forbid = False
    if cfg.get('empty'):
        g = M.empty(s)
        how = v.choice('how', 2)
        if how:                         # a prior sampler
            sm = M.mod.Sampler()
            sm.init(s)
            x = sm.eval(s)
        else:
            x = M.mod.sample_group(s, 1)
            v.check('as many values as asked for', len(x) == 1)
            x = x[0]
    else:
        g = M.group(s)
        x = g.sample_value(s)
    check_sample(v, M, s, g, x)


P = "drawn with the posterior's parameters"


def categorical(v, M, probs, u, a):
    inverse(v, probs, u, a, 1)


def check_sample(v, M, s, g, x):
    p = posterior(v, M, s, g)
    D = v.draws
    n = M.name
    if n == 'bb':
        if kinds(v, ['beta', 'bernoulli']):
            v.same(P, list(D[0][1]), list(p))
            v.close(P, D[1][1][0], D[0][2])
            v.check('returned', bool(x) == bool(D[1][2]))
    elif n == 'bnb':
        if kinds(v, ['beta', 'negbin']):
            v.same(P, list(D[0][1]), list(p))
            v.same(P, list(D[1][1]), [s.dump()['r'], D[0][2]])
            v.close('returned', x, D[1][2])
    elif n == 'gp':
        if kinds(v, ['gamma', 'poisson']):
            v.close(P, D[0][1][0], p[0])
            v.close(P, D[0][1][1] * p[1], 1)
            v.close(P, D[1][1][0], D[0][2])
            v.close('returned', x, D[1][2])
    elif n == 'nich':
        if kinds(v, ['chi2', 'normal', 'normal']):
            mu, kappa, sigmasq, nu = p
            v.close(P, D[0][1][0], nu)
            star = nu * sigmasq / D[0][2]
            v.close(P, D[1][1][0], mu)
            v.close(P, D[1][1][1] * D[1][1][1], star / kappa)
            v.close(P, D[2][1][0], D[1][2])
            v.close(P, D[2][1][1] * D[2][1][1], star)
            v.close('returned', x, D[2][2])
    elif n == 'dd':
        if kinds(v, ['dirichlet', 'uniform']):
            v.same(P, list(D[0][1][0]), p)
            inverse(v, list(D[0][2]), D[1][2], x, 1)
    elif n == 'dpd':
        if kinds(v, ['dirichlet', 'uniform']):
            rest = s.beta0 * s.alpha
            keys = list(p) + [M.mod.OTHER]
            got = list(D[0][1][0])
            v.check('returns a value in the support', x in keys)
            v.check('one parameter for each value and the rest', len(got) == len(keys))
            # in the order of the shared dict
            order = list(s.betas) + [M.mod.OTHER]
            v.same(P, got, [p[k] if k in p else rest for k in order])
            inverse(v, list(D[0][2]), D[1][2], order.index(x), 1)
    else:
        mu, kappa, psi, nu = p
        if kinds(v, ['invwishart', 'mvn', 'mvn']):
            v.same(P, D[0][1][0], v.arr(psi))
            v.close(P, D[0][1][1], nu)
            v.same(P, list(D[1][1][0]), list(mu))
            v.same(P, D[1][1][1], D[0][2] / kappa)
            v.same(P, list(D[2][1][0]), list(D[1][2]))
            v.same(P, D[2][1][1], D[0][2])
            v.same('returned', list(x), list(D[2][2]))


def positive(v, d):
    a = v.real('l00', .25, 4)
    if d == 1:
        return v.arr([[a * a]])
    if d == 3:                      # diagonal, so that the solver can keep up
        b, c = v.real('l11', .25, 4), v.real('l22', .25, 4)
        return v.arr([[a * a, 0., 0.], [0., b * b, 0.], [0., 0., c * c]])
    b, c = v.real('l10', -4, 4), v.real('l11', .25, 4)
    return v.arr([[a * a, a * b], [a * b, b * b + c * c]])


def wishart(v, cfg):
    """Bartlett: L A A' L' with A triangular, squares of the diagonal chi-squared of nu, nu-1, ..., the rest standard normal"""
    R = v.load('distributions.dbg.random')
    d = int(cfg['dim'])
    f = R.sample_wishart if cfg['which'] == '1' else R.sample_wishart_v2
    nu, L = v.real('nu', d + .5, 64), positive(v, d)
    S = f(nu, L)
    diag, off = [], []
    for k, p, x in v.draws:
        if k == 'chi2':
            diag.append((p[0], x))
        elif k == 'gamma':              # gamma(k, scale 2) is chi-squared of 2k
            v.close('chi-squared variates have scale two', p[1], 2)
            diag.append((2 * p[0], x))
        else:
            v.check('standard normals off the diagonal', k == 'normal')
            v.same('standard normals off the diagonal', list(p), [0, 1])
            off.append(x)
    v.check('as many draws as free entries', len(diag) == d and len(off) == d * (d - 1) // 2)
    if len(diag) != d or len(off) != d * (d - 1) // 2:
        return
    for i in range(d):
        v.close('degrees of freedom count down from nu', diag[i][0], nu - i)
    if d == 1:
        v.close('scaled by the matrix', S[0, 0], L[0, 0] * diag[0][1])
        return
    if d == 3:
        for i in range(d):
            for j in range(i):
                v.close('symmetric', S[i, j], S[j, i])
        x, y, z = L[0, 0], L[1, 1], L[2, 2]
        v.close('trace', S[0, 0] * (y * z) + S[1, 1] * (x * z) + S[2, 2] * (x * y),
                x * y * z * (sum(q for n, q in diag) + sum(q * q for q in off)))
        det = (S[0, 0] * (S[1, 1] * S[2, 2] - S[1, 2] * S[2, 1]) - S[0, 1] * (S[1, 0] * S[2, 2] - S[1, 2] * S[2, 0])
               + S[0, 2] * (S[1, 0] * S[2, 1] - S[1, 1] * S[2, 0]))
        v.close('determinant', det, x * y * z * diag[0][1] * diag[1][1] * diag[2][1])
        return
    detS, detL = S[0, 0] * S[1, 1] - S[0, 1] * S[1, 0], L[0, 0] * L[1, 1] - L[0, 1] * L[1, 0]
    v.close('symmetric', S[0, 1], S[1, 0])
    v.close('determinant', detS, detL * diag[0][1] * diag[1][1])
    tr = L[1, 1] * S[0, 0] - 2 * L[0, 1] * S[0, 1] + L[0, 0] * S[1, 1]
    v.close('trace', tr, detL * (diag[0][1] + diag[1][1] + off[0] * off[0]))


def wishart_naive(v, cfg):
    R = v.load('distributions.dbg.random')
    d = int(cfg['dim'])
    L = positive(v, d)
    n = 1 + v.choice('nu', 3)
    S = R.sample_wishart_naive(n, L)
    v.check('nu normal vectors', [x[0] for x in v.draws] == ['mvn'] * n)
    for k, p, x in v.draws:
        v.same('centred', list(p[0]), [0] * d)
        v.same('with the matrix as covariance', p[1], L)
    for i in range(d):
        for j in range(d):
            v.close('sum of outer products', S[i, j], sum(x[i] * x[j] for k, p, x in v.draws))


def student_t(v, cfg):
    R = v.load('distributions.dbg.random')
    d = int(cfg['dim'])
    dof, S = v.real('dof', .5, 64), positive(v, d)
    mu = v.arr([v.real('mu', -10, 10) for _ in range(d)])
    x = R.sample_student_t(dof, mu, S)
    D = dict((k, (p, y)) for k, p, y in v.draws)
    v.check('a chi-squared and a normal draw', sorted(k for k, p, y in v.draws) == ['chi2', 'mvn'])
    v.close('degrees of freedom', D['chi2'][0][0], dof)
    v.same('centred', list(D['mvn'][0][0]), [0] * d)
    v.same('with the matrix as covariance', D['mvn'][0][1], S)
    for i in range(d):
        e = x[i] - mu[i]
        z = D['mvn'][1][i]
        v.close('scaled normal', e * e * D['chi2'][1], z * z * dof)
        v.le('of the same sign', 0, e * z)


def niw_sampler(v, cfg):
    R = v.load('distributions.dbg.random')
    d = int(cfg['dim'])
    S = positive(v, d)
    mu = v.arr([v.real('mu', -10, 10) for _ in range(d)])
    k, nu = v.real('kappa', 1. / 64, 64), v.real('nu', d, 64)
    m, c = R.sample_normal_inverse_wishart(mu, k, S, nu)
    D = v.draws
    if kinds(v, ['invwishart', 'mvn']):
        v.same('inverse Wishart of psi and nu', D[0][1][0], S)
        v.close('inverse Wishart of psi and nu', D[0][1][1], nu)
        v.same('normal around mu', list(D[1][1][0]), list(mu))
        v.same('with the covariance divided by kappa', D[1][1][1], D[0][2] / k)
        v.same('mean returned', list(m), list(D[1][2]))
        v.same('covariance returned', c, D[0][2])


def simple(v, cfg):
    """one-line samplers pass their parameters on"""
    R = v.load('distributions.dbg.random')
    w = v.choice('which', 6)
    a, b = v.real('a', 1. / 64, 1), v.real('b', 1. / 64, 64)
    if w == 0:
        x, k, p = R.sample_chi2(b), 'chi2', [b]
    elif w == 1:
        x, k, p = R.sample_gamma(a, b), 'gamma', [a, b]
    elif w == 2:
        x, k, p = R.sample_beta(a, b), 'beta', [a, b]
    elif w == 3:
        x, k, p = R.sample_poisson(b), 'poisson', [b]
    elif w == 4:
        r = v.int('r', 1, 1000)
        x, k, p = R.sample_negative_binomial(a, r), 'negbin', [r, a]
    else:
        x, k, p = R.sample_dirichlet(v.arr([a, b])), 'dirichlet', None
        v.check('one draw', len(v.draws) == 1 and v.draws[0][0] == k)
        v.same('parameters', list(v.draws[0][1][0]), [a, b])
        v.same('returned', list(x), list(v.draws[0][2]))
        return
    v.check('one draw', len(v.draws) == 1 and v.draws[0][0] == k)
    v.same('parameters', list(v.draws[0][1]), p)
    v.close('returned', x, v.draws[0][2])


# ---- C24

def le_model(v, n=None):
    m = v.load('distributions.dbg.clustering').LowEntropy()
    m.load(dict(dataset_size=v.int('dataset_size', 1, 10 ** 5) if n is None else n))
    return m


def le_remove(v, cfg):
    m = le_model(v)
    g, others = v.int('group_size', 1, 10 ** 5), v.int('others', 0, 10 ** 5)
    k, e = v.int('k', 0, 1000), v.int('empty', 1, 1000)
    v.assume(k <= others)
    n = g + others
    v.assume(n <= m.dataset_size)
    one = 1 if g == 1 else 0
    v.close('score of removing is minus the score of adding back', m.score_remove_value(g, k + 1, n, e),
            -m.score_add_value(g - 1, k + 1 - one, n - 1, e))


def le_domain(v, cfg):
    """every reachable state can be scored"""
    m = le_model(v)
    k, e = v.choice('k', 3), 1 + v.choice('e', 2)
    c = [v.int('count', 1, 10 ** 5) for _ in range(k)]
    n = sum(c)
    v.assume(n <= m.dataset_size)
    if v.choice('with empties', 2):
        c = c + [0] * e
    keep = list(c)
    s = m.score_counts(c)
    if k == 0:
        v.close('no values score zero', s, 0)
    if n < m.dataset_size:
        m.score_add_value(0, k, n, e)
        if k:
            m.score_add_value(c[0], k, n, e)
    if k:
        m.score_remove_value(c[0], k, n, e)
    v.same('the counts are left alone', c, keep)


def le_complete(v, cfg):
    k = 1 + v.choice('k', 3)
    c = [v.int('count', 1, 20000) for _ in range(k)]
    m = le_model(v, sum(c))
    want = sum(n * v.log(n) for n in c)
    v.close('complete data score sum n log n minus the log partition function', m.score_counts(c),
            want - m.log_partition_function(sum(c)))


def le_order(v, cfg):
    m = le_model(v)
    k = 1 + v.choice('k', 2)
    c = [v.int('count', 0, 20000) for _ in range(k)]
    v.assume(sum(c) <= m.dataset_size)
    s = m.score_counts(c)
    v.close('order of the groups does not matter', s, m.score_counts(c[::-1]))
    v.close('an empty group does not matter', s, m.score_counts(([0] + c) if v.choice('where', 2) else (c + [0])))


def le_add(v, cfg):
    m = le_model(v)
    g, others, e = v.int('group_size', 1, 10 ** 4), v.int('others', 0, 10 ** 5), v.int('empty', 1, 1000)
    k = v.int('groups', 1, 1000)
    v.assume(g + others < m.dataset_size)
    v.assume(k - 1 <= others)
    v.close('score of joining a group', m.score_add_value(g, k, g + others, e), (g + 1) * v.log(g + 1) - g * v.log(g))
    v.close('empty groups share the probability of a new group', m.score_add_value(0, k, g + others, e),
            m.score_add_value(0, k, g + others, 1) - v.log(e))


def le_add_last(v, cfg):
    """the last value of a complete dataset: a new group multiplies the definition by one"""
    n = v.int('dataset_size', 1, 10 ** 5)
    m = le_model(v, n)
    v.close('score of a new group for the last value', m.score_add_value(0, 1, n - 1), 0)


def le_add_large(v, cfg):
    m = le_model(v)
    g, others = v.int('group_size', 10 ** 4 + 1, 10 ** 5), v.int('others', 0, 10 ** 5)
    k, e = v.int('groups', 1, 1000), v.int('empty', 1, 1000)
    v.assume(g + others < m.dataset_size)
    v.assume(k - 1 <= others)
    s = m.score_add_value(g, k, g + others, e)
    v.near('score of joining a large group', s, 1 + v.log(g + 1), 1e-3)


def le_partition(v, cfg):
    """table and approximation against the exact recurrence Z(n) = sum_k C(n-1,k-1) k^k Z(n-k)"""
    v.numeric()
    m = le_model(v, 1000)
    z = [1]
    n = 10 * v.choice('tens', 10) + v.choice('units', 10)
    for i in range(1, n + 1):
        t, b = 0, 1
        for k in range(1, i + 1):
            t += b * k ** k * z[i - k]
            b = b * (i - k) // k
        z.append(t)
    want = math.log(z[n])
    v.near('log partition function', m.log_partition_function(n), want, 1e-4 if n < 48 else 0.5)
