"""C16 for the Python flavours: dict and message round trips (model=NAME flavour=dbg|hp|lp).

Messages are stand-ins built from schema.proto (declared fields only, repeated fields, Clear); the C++
objects behind the lp wrappers are plain records, their containers are the stand-ins of pystubs.
"""
import importlib.util
import os

_spec = importlib.util.spec_from_file_location('vh_pystats', os.path.join(os.path.dirname(__file__), 'pystats.py'))
pystats = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(pystats)
from vf import pystubs

NAMES = dict(bb='BetaBernoulli', bnb='BetaNegativeBinomial', gp='GammaPoisson', nich='NormalInverseChiSq',
             dd='DirichletDiscrete', dpd='DirichletProcessDiscrete', niw='NormalInverseWishart')
LIMIT = 256


class Io(pystats.Model):
    def __init__(self, v, cfg):
        pystats.Model.__init__(self, v, cfg)
        self.other = int(cfg.get('other', 1))
        if self.name == 'dpd':
            self.dim = v.choice('sticks', 3)
        if self.flavour == 'lp':
            pystats.KEYS[2] = 40

    def message(self, kind):
        """a message with other contents"""
        m = pystubs.Message(self.name, pystubs.schema()['%s.%s' % (NAMES[self.name], kind)])
        for f, (t, rep) in m._f.items():
            if rep:
                getattr(m, f).append(3)
                getattr(m, f).append(4)
            else:
                setattr(m, f, 5)
        return m

    def vec(self, d, x):
        return self.v.arr([x] * d)

    def dirty_shared(self):
        """shared parameters used before, of another size"""
        n, s = self.name, self.mod.Shared()
        if n == 'bb':
            s.load(dict(alpha=3., beta=5.))
        elif n == 'bnb':
            s.load(dict(alpha=3., beta=5., r=7))
        elif n == 'gp':
            s.load(dict(alpha=3., inv_beta=5.))
        elif n == 'nich':
            s.load(dict(mu=3., kappa=5., sigmasq=7., nu=9.))
        elif n == 'dd':
            s.load(dict(alphas=[3., 5., 7., 9., 11.]))
        elif n == 'dpd':
            s.load(dict(gamma=3., alpha=5., betas={7: .25, 99: .5}, counts={7: 3, 99: 4}))
        else:
            s.load(dict(mu=self.vec(3, 1.), kappa=2., psi=self.v.arr([[2., 0., 0.], [0., 2., 0.], [0., 0., 2.]]), nu=5.))
        return s

    def dirty_group(self):
        n, g = self.name, self.mod.Group()
        g.init(self.dirty_shared())
        if n == 'bb':
            g.load(dict(heads=3, tails=5))
        elif n == 'bnb':
            g.load(dict(count=3, sum=5))
        elif n == 'gp':
            g.load(dict(count=3, sum=5, log_prod=7.))
        elif n == 'nich':
            g.load(dict(count=3, mean=5., count_times_variance=7.))
        elif n == 'dd':
            g.load(dict(counts=[3, 5, 7, 9, 11]))
        elif n == 'dpd':
            g.load(dict(counts={7: 3, 99: 4}))
        else:
            g.load(dict(count=3, sum_x=self.vec(3, 1.), sum_xxT=self.v.arr([[2., 1., 1.], [1., 2., 1.], [1., 1., 2.]])))
        return g

    def hidden(self, o, kind):
        """what a dump does not show but scores depend on"""
        d = {}
        p = getattr(o, 'ptr', o)
        if self.name == 'dpd':
            if kind == 'Shared':
                d['beta0'] = p.beta0
                if self.flavour == 'lp':
                    d['total'] = p.counts.get_total()
            else:
                d['total'] = p.counts.get_total() if self.flavour == 'lp' else p.total
        if self.name == 'dd' and kind == 'Group' and self.flavour == 'lp':
            d['count_sum'] = p.count_sum
        return d

    def expect(self, raw, kind):
        if self.name == 'dpd':
            if kind == 'Shared':
                d = dict(beta0=1 - sum(raw['betas'].values()))
                if self.flavour == 'lp':
                    d['total'] = sum(raw['counts'].values())
                return d
            return dict(total=sum(raw['counts'].values()))
        if self.name == 'dd' and kind == 'Group' and self.flavour == 'lp':
            return dict(count_sum=sum(raw['counts']))
        return {}

    def agree(self, label, o, raw, kind):
        self.v.same(label, o.dump(), raw)
        self.v.same(label + ' (totals)', self.hidden(o, kind), self.expect(raw, kind))


def keep(raw):
    """a copy of nested data that later changes of an argument cannot reach"""
    if isinstance(raw, dict):
        return {k: keep(x) for k, x in raw.items()}
    if isinstance(raw, (list, tuple)):
        return [keep(x) for x in raw]
    return raw.copy() if hasattr(raw, 'copy') else raw


def dicts(v, cfg, kind):
    I = Io(v, cfg)
    raw = I.raw_shared() if kind == 'Shared' else I.raw_group()
    want = keep(raw)
    fresh, used = getattr(I.mod, kind)(), I.dirty_shared() if kind == 'Shared' else I.dirty_group()
    if kind == 'Group':
        fresh.init(I.dirty_shared())
    fresh.load(raw)
    I.agree('loaded into a new object', fresh, want, kind)
    used.load(raw)
    I.agree('loaded into a used object', used, want, kind)
    v.same('loading leaves its argument alone', raw, want)
    out = used.dump()
    for x in (raw, out):
        for k, y in x.items():
            if isinstance(y, dict):
                y.clear()
            elif hasattr(y, 'shape'):
                y.fill(99.)
            elif isinstance(y, list):
                y[:1] = [99]
    I.agree('the object is independent of its dumps', used, want, kind)
    raw = keep(want)
    if hasattr(fresh, 'from_dict') and (kind == 'Shared' or I.flavour == 'dbg'):
        I.agree('from_dict', getattr(I.mod, kind).from_dict(raw), want, kind)


def shared_dict(v, cfg):
    dicts(v, cfg, 'Shared')


def group_dict(v, cfg):
    dicts(v, cfg, 'Group')


def protos(v, cfg, kind):
    I = Io(v, cfg)
    raw = I.raw_shared() if kind == 'Shared' else I.raw_group()
    want = keep(raw)
    a = getattr(I.mod, kind)()
    if kind == 'Group':
        a.init(I.dirty_shared())
    a.load(raw)
    m = I.message(kind)
    a.protobuf_dump(m)
    I.agree('dumping leaves the object alone', a, want, kind)
    b = getattr(I.mod, kind)()
    if kind == 'Group':
        b.init(I.dirty_shared())
    b.protobuf_load(m)
    I.agree('message loaded into a new object', b, want, kind)
    c = I.dirty_shared() if kind == 'Shared' else I.dirty_group()
    c.protobuf_load(m)
    I.agree('message loaded into a used object', c, want, kind)
    if kind == 'Shared' or I.flavour == 'dbg':
        n = I.message(kind)
        getattr(I.mod, kind).to_protobuf(raw, n)
        v.same('to_protobuf and from_protobuf', getattr(I.mod, kind).from_protobuf(n), want)


def shared_proto(v, cfg):
    protos(v, cfg, 'Shared')


def group_proto(v, cfg):
    protos(v, cfg, 'Group')


def bad(v, cfg):
    """messages that do not fit"""
    I = Io(v, cfg)
    n = I.name
    if n == 'dd':               # dbg has no limit
        k = LIMIT + 1 + v.choice('extra', 3)
        c = v.choice('which', 3 if I.flavour == 'lp' else 2)
        if c == 0:
            v.expect_error('too many dimensions are rejected', lambda: I.mod.Shared().load(dict(alphas=[1.5] * k)))
        elif c == 1:
            v.expect_error('too many dimensions are rejected', lambda: I.mod.Group().load(dict(counts=[3] * k)))
        else:
            m = I.message('Shared')
            m.Clear()
            for i in range(k):
                m.alphas.append(1.5)
            v.expect_error('too many dimensions are rejected', lambda: I.mod.Shared().protobuf_load(m))
        # the limit itself fits
        s = I.mod.Shared()
        s.load(dict(alphas=[1.5] * LIMIT))
        v.eq('the largest dimension fits', len(s.dump()['alphas']), LIMIT)
        return
    s = I.shared()
    m = I.message('Shared')
    s.protobuf_dump(m)
    if n == 'dpd':
        c = v.choice('bad', 3)
        if c == 0:
            m.betas.append(v.real('extra', 1. / 4096, 1. / 2048))
        elif c == 1:
            m.counts.append(1)
        else:
            m.values.append(55)
        v.expect_error('mismatched lengths are rejected', lambda: I.mod.Shared().protobuf_load(m))
    else:
        c = v.choice('bad', 4)
        if c == 0:
            m.mu.append(v.real('extra', -1, 1))
            v.expect_error('mismatched lengths are rejected', lambda: I.mod.Shared().protobuf_load(m))
        elif c == 1:
            m.psi.append(v.real('extra', -1, 1))
            v.expect_error('mismatched lengths are rejected', lambda: I.mod.Shared().protobuf_load(m))
        else:
            d = I.dim
            raw = dict(count=2, sum_x=I.vec(d + (c == 2), 1.), sum_xxT=v.arr([[1.] * (d + (c == 3))] * (d + (c == 3))))
            v.expect_error('mismatched sizes are rejected', lambda: I.mod.Group().load(raw))


def clustering(v, cfg):
    """both clustering priors"""
    mod = v.load('distributions.%s.clustering' % cfg['flavour'])
    S = pystubs.schema()
    n = v.int('dataset_size', 0, 10 ** 9)
    a = mod.LowEntropy()
    a.load(dict(dataset_size=n))
    v.same('low entropy, dict', a.dump(), dict(dataset_size=n))
    m = pystubs.Message('LowEntropy', S['Clustering.LowEntropy'])
    m.dataset_size = 77
    a.protobuf_dump(m)
    b = mod.LowEntropy(dataset_size=99)
    b.protobuf_load(m)
    v.same('low entropy, message', b.dump(), dict(dataset_size=n))
    v.same('low entropy, from_dict', mod.LowEntropy.from_dict(dict(dataset_size=n)).dump(), dict(dataset_size=n))
    if cfg['flavour'] == 'dbg':
        return
    al, d = v.real('alpha', 1. / 1024, 1024), v.real('d', 0, .999)
    want = dict(alpha=al, d=d)
    a = mod.PitmanYor()
    a.load(dict(want))
    v.same('Pitman-Yor, dict', a.dump(), want)
    m = pystubs.Message('PitmanYor', S['Clustering.PitmanYor'])
    m.alpha, m.d = 7, .5
    a.protobuf_dump(m)
    b = mod.PitmanYor(alpha=3., d=.25)
    b.protobuf_load(m)
    v.same('Pitman-Yor, message', b.dump(), want)
    v.expect_error('a discount of one or more is rejected', lambda: b.load(dict(alpha=al, d=1 + d)))
    v.expect_error('a negative discount is rejected', lambda: b.load(dict(alpha=al, d=-1. / 1024 - d)))
    v.expect_error('a concentration that is not positive is rejected', lambda: b.load(dict(alpha=-al, d=d)))


def over(v, cfg):
    """sticks that rounding has taken slightly over one load with nothing left over, not with negative mass"""
    I = Io(v, cfg)
    a, b = v.real('beta', .25, .75), v.real('excess', 0, 1. / 10 ** 6)
    raw = dict(gamma=v.real('gamma', 1. / 1024, 1024), alpha=v.real('alpha', 1. / 1024, 1024),
               betas={0: a, 1: 1 - a + b}, counts={0: 1, 1: 2})
    s = I.mod.Shared()
    if v.choice('message', 2):
        m = I.message('Shared')
        m.Clear()
        m.gamma, m.alpha = raw['gamma'], raw['alpha']
        for k in (0, 1):
            m.values.append(k)
            m.betas.append(raw['betas'][k])
            m.counts.append(raw['counts'][k])
        s.protobuf_load(m)
    else:
        s.load(raw)
    v.close('nothing is left over', getattr(s, 'ptr', s).beta0, 0)
