"""Which harness entries decide which property, with bounds."""
from .runner import CrossJob, Job, PyJob

CC = ('BB', 'BNB', 'GP', 'NICH', 'DD', 'DPD')

PYX = '; Python (dbg, hp, lp) sources re-executed with symbolic numbers within the same ranges'


def model_flags(m, thorough, dpd=2):
    f = ['-DMODEL=' + m]
    if m == 'DD':
        f += ['-DDD_DIM=%d' % (4 if thorough else 3)]
    if m == 'DPD':
        f += ['-DDPD_DIM=%d' % (3 if thorough else dpd), '-DIS_DPD']
    if m == 'NIW':
        f += ['-DM_NIW']
    return f


SB = ('one group with arbitrary (symbolic) hyperparameters and sufficient statistics: counts up to 10^6, values up to '
      '1000 (reals in [-100,100], matrices 1x1 and 2x2), dimension 3 (DD) / 2 sticks (DPD) in the quick tier, 4 / 3 in the thorough tier')


def stats(entries, thorough, models=CC + ('NIW',), extra=(), niw2=(), budget=90):
    out = []
    for m in models:
        for e in entries:
            if m == 'NIW':
                dims = [1] + ([2] if e in niw2 or thorough else [])
                for d in dims:
                    if d == 2 and e == 'exchange':
                        continue
                    out.append(Job('stats.cc', e, model_flags(m, thorough) + ['-DNIW_FIX=%d' % d] + list(extra),
                                   budget=budget, bounds=SB))
            else:
                out.append(Job('stats.cc', e, model_flags(m, thorough) + list(extra), budget=budget, bounds=SB))
    return out


PYSB = ('the Python flavours (dbg: all seven models; hp: gamma-Poisson, normal-inverse-chi-squared, Dirichlet-discrete), converted as the '
        'build does and re-executed with symbolic numbers: one group with arbitrary hyperparameters and statistics in the same ranges')
FLAVOURS = (('dbg', ('bb', 'bnb', 'gp', 'nich', 'dd', 'dpd')), ('hp', ('gp', 'nich', 'dd')))


def pystats(entries, thorough, niw2=True):
    out = []
    for fl, models in FLAVOURS:
        for m in models:
            out += [PyJob('pystats.py', e, ['model=' + m, 'flavour=' + fl], budget=200 if thorough else 60, bounds=PYSB)
                    for e in entries]
    for d in (1, 2):
        out += [PyJob('pystats.py', e, ['model=niw', 'flavour=dbg', 'dim=%d' % d], budget=300 if thorough else 90, bounds=PYSB)
                for e in entries if not (d == 2 and e == 'exchange')]
    return out


ALLPY = ('bb', 'bnb', 'gp', 'nich', 'dd', 'dpd', 'niw1', 'niw2')
HP = ('gp', 'nich', 'dd')


def py(entries, harness='pymisc.py', bounds='', budget=90, flags=(), **flavours):
    """one job for each entry, flavour and model"""
    out = []
    for fl, models in flavours.items():
        for m in models:
            f = ['model=niw', 'dim=' + m[3:]] if m[:3] == 'niw' and m != 'niw' else ['model=' + m]
            out += [PyJob(harness, e, f + ['flavour=' + fl] + list(flags), budget=budget, bounds=bounds) for e in entries.split(',')]
    return out


def py1(entries, bounds, *flags):
    return [PyJob('pymisc.py', e, ['flavour=dbg'] + list(flags), budget=90, bounds=bounds) for e in entries.split(',')]


def C01(t):
    return stats(['add_remove', 'add_order', 'from_empty'], t, niw2=('add_remove', 'from_empty', 'add_order')) + \
        pystats(['add_remove', 'add_order', 'from_empty'], t)


def C02(t):
    return stats(['merge', 'merge_empty', 'merge_values', 'merge_scores'], t,
                 niw2=('merge', 'merge_empty', 'merge_values', 'merge_scores')) + \
        pystats(['merge', 'merge_empty', 'merge_values', 'merge_scores'], t)


def C03(t):
    return stats(['repeated', 'repeated_empty', 'repeated_step'], t, extra=['-DREPMAX=%d' % (6 if t else 3)],
                 niw2=('repeated', 'repeated_empty', 'repeated_step')) + \
        pystats(['repeated', 'repeated_empty', 'repeated_step'], t)


def C04(t):
    return stats(['chain', 'chain_scorer', 'empty_score', 'exchange'], t,
                 niw2=('chain', 'chain_scorer', 'empty_score')) + pystats(['chain', 'empty_score', 'exchange'], t)


MB = ('mixtures of up to 2 groups with arbitrary contents (as for C01) and symbolic hyperparameters, then 1 operation '
      '(quick) / 2 operations (thorough) out of add/remove group/value with symbolic choices; reinitialisation with '
      'another number of groups (1 to 3); a fixed-shape history from scratch with the shared parameters updated alongside')


def mixture(entries, t, mixes=('FastMixture', 'SmallMixture'), niw=(), bounds=MB):
    out = []
    for mix in mixes:
        for m in CC:
            for e in entries:
                if e == 'resticks_scores' and m != 'DPD':
                    continue
                f = model_flags(m, False) + ['-DMIX=' + mix]
                if e == 'op_scores' and t:
                    f += ['-DOPS=2']
                elif t:
                    f = model_flags(m, True) + ['-DMIX=' + mix, '-DGROUPS=3']
                if m == 'DPD' and e == 'reinit_scores':
                    f += ['-DREGROUPS=2']
                out.append(Job('mixture.cc', e, f, budget=400 if t else 90, bounds=bounds))
    for e in niw:
        for d in (1, 2):
            if e == 'op_scores' and d == 2:
                continue
            out.append(Job('mixture.cc', e, model_flags('NIW', t) + ['-DNIW_FIX=%d' % d], budget=200 if t else 90, bounds=bounds))
    return out


def C05(t):
    js = mixture(['init_scores', 'op_scores', 'reinit_scores', 'scratch_scores', 'drain_scores', 'resticks_scores'], t,
                 niw=('init_scores', 'op_scores', 'reinit_scores'))
    js.sort(key=lambda j: 'DPD' not in j.name)
    return js


GB = ('mixtures of 0 to 2 groups (thorough: 3) with arbitrary contents, empty ones included; grids of 3 points, fresh, '
      'repeated, or differing from the previous point in one hyperparameter; a scorer used before with other parameters')


def C06(t):
    return mixture(['data', 'data_again', 'grid', 'grid_partial'], t, bounds=GB,
                   niw=('data', 'data_again', 'grid', 'grid_partial'))


NB = 'hyperparameters and group contents as for C01; Pitman-Yor: up to 3 (thorough: 5) groups, alpha in [2^-10, 2^10], d in [0, 0.99], 1 to 3 empty groups' + PYX


def C07(t):
    js = [Job('norm.cc', e, model_flags(m, t, 3), budget=90, bounds=NB)
          for m in ('BB', 'DD', 'DPD') for e in ('group_sum', 'scorer_sum', 'history_sum')]
    js.append(Job('norm.cc', 'dpd_shared_sum', model_flags('DPD', False, 2), budget=90, bounds=NB))
    js.append(Job('clustering.cc', 'py_sum', ['-DGK=%d' % (5 if t else 3)], budget=90, bounds=NB))
    return js + py('sums', dbg=('bb', 'dd', 'dpd'), hp=('dd',), bounds=NB)


PB = 'lists of up to 3 (thorough: 6) groups of up to 10^6 values, empty ones anywhere; alpha in [2^-10, 2^10], d in [0, 0.99]'


def C08(t):
    f = ['-DGK=%d' % (6 if t else 3)]
    return [Job('clustering.cc', e, f, budget=300 if t else 90, bounds=PB) for e in ('py_step', 'py_base', 'py_order', 'py_remove')]


DB = ('mixtures of up to 1 (thorough: 2) nonempty groups of arbitrary size plus 1 or 2 empty groups anywhere, then 2 operations with '
      'symbolic choices of operation, group and repetition; and reinitialisation of a used mixture with up to 3 (thorough: 4) groups')


def C09(t):
    out = []
    for e in ('driver_py', 'driver_plain', 'driver_le'):
        out.append(Job('clustering.cc', e, ['-DGK=2', '-DOPS=2'], budget=600 if t else 100, bounds=DB))
        if t:
            out.append(Job('clustering.cc', e, ['-DGK=3', '-DOPS=2'], budget=600, bounds=DB))
    for e in ('driver_py_start', 'driver_le_start'):
        out.append(Job('clustering.cc', e, ['-DGK=%d' % (3 if t else 2)], budget=600 if t else 90, bounds=DB))
    return out


AB = 'up to 4 (thorough: 5; low entropy 3 and 4) values with symbolic uniform draws and parameters; counting: up to 4 values with ids 0 to 3' + PYX


def C21(t):
    return [Job('clustering.cc', 'py_sample', ['-DSIZE=%d' % (5 if t else 4)], budget=400 if t else 90, bounds=AB),
            Job('clustering.cc', 'le_sample', ['-DSIZE=%d' % (4 if t else 3)], budget=600 if t else 90, bounds=AB),
        Job('clustering.cc', 'count', [], budget=90, bounds=AB)] + \
        py1('le_sample', AB, 'size=4') + py1('partition', AB)


LB = ('dataset sizes up to 10^5, up to 3 (thorough: 4) groups of arbitrary sizes; the partition function for every sample '
      'size below 100 against the exact recurrence; joining a large group up to 10^6' + PYX)


def C24(t):
    f = ['-DGK=%d' % (4 if t else 3)]
    return [Job('clustering.cc', e, f, budget=300 if t else 90, bounds=LB) for e in (
        'le_remove', 'le_domain', 'le_complete', 'le_order', 'le_add', 'le_add_last', 'le_add_large', 'le_partition')] + [
        Job('clustering.cc', 'le_add_precise', f, budget=90, bounds=LB, opts=dict(log_error='62/1000000'))] + \
        py1('le_remove,le_domain,le_complete,le_order,le_add,le_add_last,le_add_large,le_partition', LB)


TB = ('trackers started with 0 to 4 groups, then any history of 3 (thorough: 5) operations, each adding a group or removing any '
      'existing one, then any query; the hash map is the standard library reimplementation with symbolic keys')


def C10(t):
    f = ['-DOPS=%d' % (5 if t else 3)]
    return [Job('tracker.cc', e, f, budget=600 if t else 90, bounds=TB)
            for e in ('bijection', 'lookup_global', 'lookup_packed', 'remove_bad', 'reinit')]


RB = ('vectors of 1 to 4 (thorough: 6) entries with every symbolic content (zero entries included), every uniform draw in [0, 1) '
      'or (0, 1]; plain and aligned vectors' + PYX)


def rnd(entries, t, bounds=RB):
    out = []
    for a in ([], ['-DALIGNED']):
        for e in entries:
            out.append(Job('random.cc', e, ['-DDIM=%d' % (6 if t else 4)] + a, budget=400 if t else 90, bounds=bounds, opts=dict(exp_guard=1)))
    return out


HPB = '; the functions of rng_cc.hpp behind the hp flavour: 1 to 4 (thorough: 6) entries, arbitrary parameters and draws'


def hprng(t, *es):
    return [Job('hprng.cc', 'hp_' + e, ['-DDIM=%d' % (6 if t else 4)], budget=90, bounds=(DRB if 'dirichlet' in e else RB if e == 'categorical' else SAB) + HPB)
            for e in es]


def C11(t):
    return rnd(['discrete', 'from_probs', 'from_likelihoods', 'from_likelihoods_total', 'from_scores',
                'from_scores_overwrite', 'prob_from_scores'], t) + [
        Job('random.cc', e, ['-DDIM=%d' % (6 if t else 4)], budget=90, bounds=RB)
        for e in ('bernoulli', 'from_urn', 'pair_from_urn')] + hprng(t, 'categorical') + py1('discrete,discrete_log,bernoulli', RB)


def C12(t):
    return rnd(['to_likelihoods', 'to_probs', 'shift', 'lse', 'score_of_choice', 'prob_from_scores', 'extreme'], t) + \
        py1('probs,probs_arr', RB)


DRB = ('parameter vectors of 1 to 4 (thorough: 6) entries, zeros included, gamma variates arbitrary (also all underflowing to '
       'zero), output aliasing the parameters or not')


def C13(t):
    return [Job('random.cc', e, ['-DDIM=%d' % (6 if t else 4)], budget=400 if t else 90, bounds=DRB)
            for e in ('dirichlet', 'dirichlet_alias', 'dirichlet_underflow', 'dirichlet_underflow_alias', 'dirichlet_safe',
                      'dirichlet_safe_alias', 'dirichlet_safe_underflow', 'beta', 'beta_safe')] + \
        hprng(t, 'dirichlet', 'dirichlet_alias', 'dirichlet_underflow', 'dirichlet_underflow_alias')


SPB = 'every history of up to 3 (thorough: 4) operations over 3 keys with symbolic counts in [-1000, 1000]; maps with symbolic choices of operation'


def C14(t):
    return [Job('sparse.cc', e, ['-DOPS=%d' % (4 if t else 3)], budget=400 if t else 90, bounds=SPB)
            for e in ('counter', 'counter_fresh', 'counter_clear', 'counter_init', 'counter_merge', 'counter_rename',
                      'counter_rename_clash', 'counter_copy', 'map')]


XB = ('log: every normal float (all exponents at once, every mantissa); log-gamma and its difference: every exponent from -126 to 127, '
      'every mantissa; log-factorial: every 32-bit count; errors in exact arithmetic (rounding of the result comes on top); '
      'composed functions: parameters in [0.01, 1000], dimension up to 6')


def C17(t):
    x = dict(exact_special=1, exact_consts=1)
    xl = dict(x, run_fastlog=1, heap_tables=1)
    js = [Job('special.cc', 'log%d' % k, [], budget=120, opts=xl, bounds=XB) for k in range(8)]
    js += [Job('special.cc', e, [], budget=120, opts=x, bounds=XB)
           for e in ('lgamma', 'lgamma_nu', 'log_factorial_small', 'log_factorial')]
    js += [Job('special.cc', e, [], budget=60, bounds=XB)
           for e in ('log_sum_exp', 'fast_log_sum_exp', 'log_beta', 'fast_log_beta', 'log_beta_domain', 'log_binom',
                     'fast_log_binom', 'lmultigamma', 'sqr')]
    return js


STB = ('every row below 32 after any one (thorough: two) of 7 earlier requests; the approximate rows 32, 33, 34, 40, 48, 64, 96 and 128 '
       '(entries within max(0.7, 0.3 + 0.085 (n - 32)), slopes within 0.17 + 0.0013 (n - 32))')


def C18(t):
    return [Job('stirling.cc', 'row', ['-DBEFORE=%d' % (2 if t else 1)], budget=600 if t else 150, bounds=STB)] + [
        Job('stirling.cc', e, ['-DNAPPROX=8'], budget=150, bounds=STB) for e in ('row_aligned', 'again', 'approximate', 'after')]


VB = 'sizes 0 to 20 (thorough: 60) with every symbolic content between canaries; extrema: every order of up to 6 (8) elements, any position up to size 20 (60)'


def C19(t):
    f = ['-DVN=%d' % (60 if t else 20), '-DNEXT=%d' % (8 if t else 6)]
    ks = ['zero', 'shift', 'scale', 'negate', 'add', 'negate_and_add', 'add_add', 'add_subtract', 'add_subtract_scalar',
          'multiply_add', 'sum', 'dot', 'min', 'max', 'min_at', 'max_at']
    ks += [k + s for k in ('exp', 'log', 'lgamma', 'lgamma_nu') for s in ('', '_inplace')]
    return [Job('vec.cc', k, f, budget=300 if t else 60, bounds=VB) for k in ks]


DPB = ('shared states with 0 to 2 (thorough: 3) sticks of any length and any counts, then 1 (thorough: 3) operations with symbolic '
       'choices; histories of 3 (5) operations from scratch; realize with up to 3 new sticks; messages with up to 2 (3) sticks; '
       'gamma in [2^-10, 2^10]' + PYX)


def C15(t):
    f = ['-DSTICKS=%d' % (3 if t else 2), '-DOPS=%d' % (3 if t else 1), '-DREALIZE=3']
    return [Job('dpd.cc', e, f, budget=600 if t else 90, bounds=DPB)
            for e in ('history', 'scratch', 'known', 'realize', 'load', 'load_bad')] + \
        py1('sticks', DPB, 'ops=%d' % (3 if t else 2)) + py1('stick', DPB) + py('over', 'pyio.py', DPB, dbg=('dpd',), lp=('dpd',))


IOB = ('every hyperparameter and statistic symbolic over its whole range; dimension 1 to 4 of at most 4 (DD), up to 2 (thorough: 3) sticks, '
       '1x1 and 2x2 matrices (fixed and dynamic size); targets and messages with other content before; messages through stand-ins for the '
       'generated classes (same accessors)' + PYX)


def C16(t):
    js = []
    for m in CC:
        f = model_flags(m, t) + (['-DIS_DD'] if m == 'DD' else [])
        js += [Job('io.cc', e, f, budget=60, bounds=IOB) for e in ('shared', 'group') + (('bad',) if m in ('DD', 'DPD') else ())]
    for fix, n in ((1, 1), (2, 2), (-1, 2)):
        f = ['-DMODEL=NIW', '-DM_NIW', '-DNIW_FIX=%d' % fix, '-DNIW_N=%d' % n]
        js += [Job('io.cc', e, f, budget=60, bounds=IOB) for e in ('shared', 'group', 'bad')]
    js += [Job('clustering.cc', 'io', [], budget=60, bounds=IOB)]
    js += py('shared_dict,group_dict', 'pyio.py', IOB, dbg=ALLPY, hp=HP, lp=ALLPY)
    js += py('shared_proto', 'pyio.py', IOB, dbg=ALLPY, lp=ALLPY) + py('group_proto', 'pyio.py', IOB, dbg=ALLPY)
    js += py('bad', 'pyio.py', IOB, dbg=('dpd', 'niw2'), lp=('dd', 'dpd', 'niw2'), hp=('dd',))
    return js + [PyJob('pyio.py', 'clustering', ['flavour=' + f], budget=60, bounds=IOB) for f in ('dbg', 'lp')]


EB = ('one group or a mixture of two groups with arbitrary contents and hyperparameters (as for C01), every operation once; scores: up to 4 '
      '(thorough: 6) entries; assignments: up to 3 values; every draw of the generator symbolic, in the support of its distribution' + PYX)


def C22(t):
    js = []
    for m in CC:
        js += [Job('sampler.cc', e, model_flags(m, t), budget=200 if t else 60, bounds=EB)
               for e in ('quiet_group', 'quiet_mixture', 'quiet_small_mixture', 'repeatable')]
    for d in (1, 2):
        js += [Job('sampler.cc', e, ['-DMODEL=NIW', '-DM_NIW', '-DNIW_FIX=%d' % d], budget=200 if t else 60, bounds=EB)
               for e in ('quiet_group',) + (('quiet_mixture', 'repeatable') if d == 1 else ())]
    for a in ([], ['-DALIGNED']):
        js += [Job('random.cc', e, ['-DDIM=%d' % (6 if t else 3)] + a, budget=200 if t else 60, bounds=EB)
               for e in ('score_like_sample', 'quiet_scores', 'repeat_choice', 'repeat_dirichlet')]
    js += [Job('clustering.cc', e, [], budget=60, bounds=EB) for e in ('quiet_py', 'quiet_le', 'repeat_py', 'repeat_le')]
    js += [Job('dpd.cc', 'known', ['-DSTICKS=2'], budget=60, bounds=EB)]
    return js + py('quiet,quiet_sampler', bounds=EB, dbg=ALLPY, hp=HP)


SAB = ('one group with arbitrary hyperparameters and statistics (as for C01), every draw symbolic: the kinds and parameters of the draws and the '
       'value returned; normal-inverse-Wishart: 1x1 in full, 2x2 for the four matrix samplers (determinant, trace, Mahalanobis distance), Wishart in Python also 3x3 with a diagonal matrix' + PYX)


def C23(t):
    js = []
    for m in CC:
        js += [Job('sampler.cc', e, model_flags(m, t), budget=200 if t else 60, bounds=SAB) for e in ('sample', 'sample_empty', 'sampler_reuse')]
    js += [Job('sampler.cc', e, ['-DMODEL=NIW', '-DM_NIW', '-DNIW_FIX=1'], budget=60, bounds=SAB) for e in ('sample', 'sample_empty', 'sampler_reuse')]
    js += [Job('sampler.cc', e, ['-DMODEL=NIW', '-DM_NIW', '-DNIW_FIX=2'], budget=90, bounds=SAB)
           for e in ('wishart', 'inverse_wishart', 'multivariate_normal', 'normal_inverse_wishart')]
    js += py('sample', bounds=SAB, dbg=ALLPY, hp=HP) + py('sample', bounds=SAB, flags=['empty=1'], dbg=ALLPY, hp=HP)
    for d in ('dim=1', 'dim=2'):
        js += py1('wishart', SAB, 'which=1', d) + py1('wishart', SAB, 'which=2', d) + \
            py1('wishart_naive,student_t,niw_sampler', SAB, d)
    js += py1('wishart', SAB, 'which=1', 'dim=3') + py1('wishart', SAB, 'which=2', 'dim=3')
    return js + py1('simple', SAB) + hprng(t, 'normal', 'chisq', 'gamma', 'poisson', 'seed')


CB = ('one group with arbitrary hyperparameters, statistics and values (as for C01): scores, then one addition, repeated addition, removal and '
      'merge, so that by induction every history in those ranges agrees; normal-inverse-Wishart: 1x1 and 2x2, nu at least the dimension; '
      'low entropy: dataset sizes up to 10^5, up to 3 (thorough: 4) groups; exact real arithmetic, so the single-precision approximation '
      'error of the C++ log functions, which scores multiply by counts, is outside')


def C20(t):
    js = []
    for fl, models in FLAVOURS + (('dbg', ('niw1', 'niw2')),):
        for m in models:
            name, f, pf = m, model_flags(m.upper(), t), ['model=' + m, 'flavour=' + fl]
            if m[:3] == 'niw':
                f = model_flags('NIW', t) + ['-DNIW_FIX=' + m[3:]]
                pf = ['model=niw', 'flavour=dbg', 'dim=' + m[3:]]
            js += [CrossJob('cross.cc', e, f, 'pycross.py', e, pf, budget=200 if t else 90, bounds=CB)
                   for e in ('scores', 'stats', 'remove', 'merge')]
    js += [CrossJob('cross_le.cc', e, ['-DGK=%d' % (4 if t else 3)], 'pycross.py', e, [], budget=200 if t else 90, bounds=CB)
           for e in ('le_moves', 'le_counts', 'le_small', 'le_partition', 'to_probs')]
    return js


WB = ('every wrapper method called once with arbitrary values, counts up to 10^6, symbolic group ids; mixtures of up to 2 (3 for clustering) '
      'groups; vectors and matrices up to 3; the C++ object is a recorder, so what the C++ does is the business of the other properties; '
      'the .pyx sources are read with C conversions of arguments modelled, not reference counting or the generated C')


def C25(t):
    ms = ('bb', 'bnb', 'gp', 'nich', 'dd', 'dpd')
    js = [PyJob('pylp.py', e, ['model=' + m], budget=60, bounds=WB) for e in ('group', 'sample_group') for m in ms + ('niw',)]
    js += [PyJob('pylp.py', e, ['model=' + m], budget=60, bounds=WB) for e in ('shared', 'mixture') for m in ms]
    js += [PyJob('pylp.py', 'clustering', ['which=' + w], budget=60, bounds=WB) for w in ('py', 'le')]
    return js + [PyJob('pylp.py', e, [], budget=60, bounds=WB) for e in ('assignments', 'tracker', 'functions', 'matrices')]


THB = ('two threads one after the other, each order of roles, happens-before by locks, atomics and static initialisation; mixtures of 1 to 2 '
       'groups with arbitrary contents and hyperparameters (as for C01), one to five operations per thread with arbitrary values; Stirling rows '
       '0, 1, 2, 5, 31, 32 and 40; normal-inverse-Wishart: 1x1 in full, 2x2 for queries and data scores; the C library is taken to be thread safe')


def C26(t):
    js = []
    for m in CC:
        fs = [['-DMIX=FastMixture']] + ([['-DMIX=SmallMixture']] if t else [])
        js += [Job('threads.cc', e, model_flags(m, t, dpd=1) + f, budget=300 if t else 60, bounds=THB)
               for f in fs for e in ('queries', 'sampling', 'data', 'updates', 'own')]
    js += [Job('threads.cc', e, ['-DMODEL=NIW', '-DM_NIW', '-DNIW_FIX=%d' % d], budget=90, bounds=THB)
           for d, es in ((1, ('queries', 'sampling', 'data', 'updates', 'own')), (2, ('queries', 'data', 'own'))) for e in es]
    js += [Job('threads.cc', e, ['-DNOMODEL'], budget=90, bounds=THB)
           for e in ('stirling', 'pitman_yor', 'low_entropy', 'low_entropy_sample', 'random', 'vectors', 'containers')]
    return js + [Job('threads.cc', 'special', ['-DNOMODEL'], budget=90, bounds=THB, opts=dict(exact_special=1, exact_consts=1, run_fastlog=1, model_fmath=1, heap_tables=1))]


C26.technique = ('bounded symbolic execution of the LLVM IR of the C++ sources for two threads, path conditions decided by z3, conflicting '
                 'accesses that happens-before does not order refuted (replayed under ThreadSanitizer)')
PYTECH = 'bounded symbolic execution of the LLVM IR of the C++ sources and of the Python sources (by re-execution), assertions decided by z3'
for _f in (C01, C02, C03, C04, C07, C11, C12, C15, C16, C20, C21, C22, C23, C24):
    _f.technique = PYTECH
C25.technique = 'bounded symbolic execution of the Python and Cython sources (by re-execution), assertions decided by z3'
