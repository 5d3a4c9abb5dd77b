"""C27: verification never alters its inputs and calls do not influence each other."""
import numpy as np
from .common import *
BOUNDS = ('every metric of every kind of verifier and every utility on arrays of two to four cells with symbolic contents (zero and missing values included where they are accepted), member axis first or last, '
          'averaging axes none, one or all, with and without bootstrap; every ordered pair of metric calls on one verifier')
OUTSIDE = 'longer call histories (see C24), larger arrays, parallel workers'
from . import c06, c24

KINDS = dict(c24.KINDS)
KINDS['gauss'] = [m for m in KINDS['gauss']] + ['roc', 'reliability', 'brier_decomp']
KINDS['ens'] = KINDS['ens'] + ['corr', 'brier_decomp']
KINDS['hurdle'] = ['cdf', 'brier', 'sharpness', 'roc', 'rank_hist', 'pit', 'iou_prob', 'f_determ', 'variance', 'error', 'iou_determ']
KINDS['tgauss'] = ['crps', 'cdf', 'brier', 'rank_hist', 'pit', 'spread', 'prob_to_ens', 'variance', 'f_determ']
KINDS['gamma'] = ['crps', 'cdf', 'brier', 'rank_hist', 'pit', 'spread', 'prob_to_ens', 'variance', 'f_determ', 'error', 'sharpness']
KINDS['tgamma'] = ['cdf', 'brier', 'pit', 'spread', 'prob_to_ens', 'f_determ']
FUNCS = ['binned_spread_skill', 'reliability_diagram', 'ens_to_prob', 'ens_to_prob-over', 'ens_to_prob-array', 'rank_histogram', 'boot_arr', 'boot_vec', 'calculate_roc', 'binarize_obs', 'iou_determ', 'iou_prob',
         'corr', 'brier_decomp', 'crps_gamma', 'crps_truncated_gaussian', 'cdf_gaussian', 'cdf_gaussian-t', 'cdf_gamma', 'cdf_gamma-t', 'cdf_gamma_hurdle', 'sample_dist_gaussian',
         'sample_dist_gaussian-t', 'sample_dist_gamma', 'diebold_mariano_test', 'reliability_index', 'reliability_index-list', 'kde', 'Integration-mean', 'Integration-variance', 'Integration-crps',
         'binned_spread_skill-boot', 'reliability_diagram-boot', 'write_matrix']


def configs(tier):
    out = []
    for kind, ms in KINDS.items():
        for first in ((False, True) if kind == 'ens' else (False,)):
            for m in ms:
                if kind == 'ens' and first and tier == 'quick' and m in ('roc', 'reliability', 'sharpness', 'brier', 'brier_decomp'): continue
                for boot in (False, True):
                    if boot and (tier == 'quick' and first or m not in ('error', 'crps', 'brier', 'reliability', 'binned_spread_skill', 'corr', 'brier_decomp')): continue
                    if boot and tier == 'quick' and kind not in ('determ', 'ens'): continue
                    out.append({'name': 'inputs-%s%s-%s%s' % (kind, '-first' if first else '', m, '-boot' if boot else ''),
                                'params': {'mode': 'inputs', 'kind': kind, 'm': m, 'first': first, 'boot': boot}, 'validate': 1, 'weight': 2 if kind in ('ens', 'tgamma') else 1})
            if kind in ('determ', 'ens'):
                for m in ms:
                    if m in ('crps', 'iou_determ', 'iou_prob', 'brier_decomp', 'cdf', 'roc', 'sharpness', 'brier', 'reliability', 'binned_spread_skill') or tier == 'quick' and first and m != 'spread': continue
                    out.append({'name': 'missing-%s%s-%s' % (kind, '-first' if first else '', m), 'params': {'mode': 'missing', 'kind': kind, 'm': m, 'first': first, 'boot': False}, 'validate': 1})
        if kind != 'tgamma':
            for m in ms:
                if m == 'corr': continue
                out.append({'name': 'pairs-%s-%s' % (kind, m), 'params': {'mode': 'pairs', 'kind': kind, 'm': m, 'first': False, 'boot': False}, 'validate': 1, 'weight': 3})
    for kind, ms in KINDS.items():
        for m in ms:
            if kind in ('tgauss', 'tgamma') and m in ('spread', 'prob_to_ens', 'rank_hist') and tier == 'quick': continue
            out.append({'name': 'wide-%s-%s' % (kind, m), 'params': {'mode': 'wide', 'kind': kind, 'm': m, 'first': False, 'boot': False}, 'validate': 1})
    for f in FUNCS: out.append({'name': 'function-' + f, 'params': {'mode': 'function', 'kind': '', 'm': f, 'first': False, 'boot': False}, 'validate': 1})
    return out


class Held:
    """Inputs and copies of what they were."""
    def __init__(self, X): self.X, self.a, self.c, self.d = X, {}, {}, []
    def add(self, name, a):
        if isinstance(a, dict):
            for k, v in a.items(): self.add(name + '[%s]' % k, v)
            self.d.append((name, a, list(a.keys()), list(a.values())))
        elif hasattr(a, 'ndim'): self.a[name], self.c[name] = a, self.X.copy(a)
        return a
    def check(self, what):
        for n, a in self.a.items(): self.X.same_arrays(a, self.c[n], '%s leaves %s as it was' % (what, n))
        for n, a, ks, vs in self.d: self.X.prove(list(a.keys()) == ks and all(x is y for x, y in zip(a.values(), vs)), '%s leaves the entries of %s as they were' % (what, n))
    def apart(self, r, what):
        for x in leaves(r):
            for n, a in self.a.items(): self.X.prove(not self.X.same_memory(x, a), '%s shares no memory with %s' % (what, n))


def leaves(r):
    if isinstance(r, (tuple, list)): return [y for x in r for y in leaves(x)]
    if isinstance(r, dict): return [y for x in r.values() for y in leaves(x)]
    if isinstance(r, np.ndarray):
        if r.dtype == object and type(r) is np.ndarray: return [r] + [y for x in r.ravel() for y in leaves(x) if hasattr(x, 'ndim')]
        return [r]
    return []


def spoil(r):
    """Overwrite a result."""
    for x in reversed(leaves(r)):
        if x.ndim and x.size and x.flags.writeable: x[...] = 7.0


def args(X, m):
    if m in c24.THR | {'brier_decomp'}: a = {'over': 1.5}
    elif m == 'iou_prob': a = {'over': (1.5, 0.5), 'below': c24.N}
    else: a = {}
    if m in ('reliability', 'binned_spread_skill'): a['nbins'] = 2
    return a


CLS = dict(c24.CLS, tgauss='VerifyProbGaussian', gamma='VerifyProbGamma', tgamma='VerifyProbGamma')


def data(X, kind, first, missing, m, sym):
    """(f, o, keywords); sym: symbolic parameters too."""
    sh = (2,)
    if kind == 'ens' and not sym: return X.array([0.5, 1.0, 1.25, 2.5], sh + (2,)), X.reals('o', sh, 0, 4), {'ensemble_axis': -1}
    if kind == 'determ':
        f, o = X.reals('f', sh, 0, 4, nan=missing), X.reals('o', sh, 0, 4, nan=missing)
        if m == 'corr':
            for z in (f, o) if sym else (f,): X.assume(X.or_(X.isnan(z[0]), X.or_(X.isnan(z[1]), z[0] - z[1] >= 0.25)))
        return f, o, {}
    if kind == 'ens':
        o = X.reals('o', sh, 0, 4, nan=missing)
        fs = X.reals('f', (2,) + sh if first else sh + (2,), 0, 4, nan=missing)
        g = lambda c, k: fs[(k,) + c] if first else fs[c + (k,)]
        if m in ('corr',):
            X.assume(X.or_(X.isnan(o[0]), X.or_(X.isnan(o[1]), o[0] - o[1] >= 0.25)))
            if not missing: X.assume(g((0,), 0) + g((0,), 1) - g((1,), 0) - g((1,), 1) >= 0.25)
        elif not missing and m in ('brier', 'brier_decomp', 'cdf', 'roc', 'sharpness', 'reliability', 'iou_prob'):
            # fixed spread, symbolic position
            for c in range(2): X.assume(g((c,), 1) == g((c,), 0) + 0.5 * (c + 1))
            if m in ('reliability', 'roc', 'brier_decomp'): fs = X.array([0.5, 1.0, 1.0, 2.5], sh + (2,)) if not first else X.array([0.5, 1.0, 1.0, 2.5], (2,) + sh)
        return fs, o, {'ensemble_axis': 0 if first else -1}
    o = X.reals('o', sh, 0, 4)
    sg = X.array([1.0, 0.5], sh)
    mu = X.array([1.25, 2.0], sh)
    if kind in ('gauss', 'tgauss'):
        if sym and m not in ('crps', 'brier_decomp', 'reliability', 'roc', 'binned_spread_skill', 'rank_hist', 'spread', 'prob_to_ens') and kind == 'gauss': mu = X.reals('mu', sh, 0, 4)
        return {'mu': mu, 'sigma': sg}, o, dict(truncated=True) if kind == 'tgauss' else {}
    if kind == 'hurdle': return {'pop': X.array([0.5, 0.75], sh), 'mu': mu, 'sigma': sg}, o, {'n_approx_bins': 2, 'integration_range': (0.0, 4.0)}
    shift = X.array([-0.5, -1.0], sh)
    return {'mu': mu + shift, 'sigma': sg, 'shift': shift, 'unshifted_mu': mu}, o, dict(truncated=True) if kind == 'tgamma' else {}


def wide(X, kind):
    """Two-dimensional inputs in the memory layout of the variant: one symbolic observation, different constants elsewhere."""
    sh = (2, 2)
    c = lambda *v: X.lay(X.array(v, sh))
    o = c(0.0, 2.0, 3.25, 1.75)
    o[0, 0] = X.real('o00', 0, 4)
    f, mu, sg = c(1.25, 2.0, 0.75, 3.0), c(1.25, 2.0, 2.5, 1.75), c(1.0, 0.5, 0.75, 1.5)
    if kind == 'determ': return f, o, {}
    if kind == 'ens': return X.lay(X.array([0.5, 1.0, 1.25, 2.5, 3.0, 0.25, 1.75, 2.25], (2, 2, 2))), o, {'ensemble_axis': 2}
    if kind in ('gauss', 'tgauss'): return {'mu': mu, 'sigma': sg}, o, dict(truncated=True) if kind == 'tgauss' else {}
    if kind == 'hurdle': return {'pop': c(0.5, 0.75, 0.25, 0.625), 'mu': mu, 'sigma': sg}, o, {'n_approx_bins': 2, 'integration_range': (0.0, 4.0)}
    return {'mu': c(0.75, 1.0, 2.0, 1.5), 'sigma': sg, 'shift': c(-0.5, -1.0, -0.5, -0.25), 'unshifted_mu': mu}, o, dict(truncated=True) if kind == 'tgamma' else {}


def run(X, mode, kind, m, first, boot):
    X.setenv(boot_repeats=2, boot_samples=2)
    if mode == 'function': return function(X, m)
    if mode == 'missing': X.setenv(skip_nan=True)
    H = Held(X)
    if mode == 'wide': f, o, kw = wide(X, kind)
    else: f, o, kw = data(X, kind, first, mode == 'missing', m, mode != 'pairs')
    H.add('f', f); H.add('o', o)
    if mode == 'pairs':
        # the observations keep clear of the threshold; the first may be exactly zero
        X.assume(o[1] >= 1.625)
        if X.choose(2, 'zero'): X.assume(o[0] == 0)
        else: X.assume(o[0] >= 1.625)
    cls = X.cls(CLS[kind])
    if kind not in ('determ', 'ens', 'hurdle') and m in ('spread', 'prob_to_ens', 'rank_hist'): kw['n_sample_members'] = 2
    if kind not in ('determ', 'ens', 'hurdle') and mode == 'pairs': kw['n_sample_members'] = 2
    kw['avg_axis'] = (1,) if mode == 'wide' else (0,) if m in ('reliability', 'binned_spread_skill') or mode == 'pairs' or boot else None
    if boot: kw['boot_samples'] = 2
    make = lambda: cls(f, o, **kw)
    def call(v, q):
        X.rewind()
        return getattr(v, q)(**args(X, q))
    if mode == 'pairs':
        fresh = {}
        for q in KINDS[kind]:
            if q == 'corr' and m != 'corr': continue
            v = make()
            call(v, m)
            same(X, call(v, q), call(make(), q), q + ' after ' + m)
        H.check(m + ' and others')
        return
    v = make()
    H.check('construction')
    r = call(v, m)
    H.check(m)
    H.apart(r, m)
    keep = [X.copy(x) for x in flat(X, r)]
    spoil(r)
    H.check('writing into the result of ' + m)
    for x, y in zip(keep, flat(X, call(v, m))): X.eq(y, x, 'repeated ' + m)
    H.check('repeated ' + m)


def function(X, m):
    H = Held(X)
    U = lambda n: X.fn('utils_verify', n)
    sh = (2,)
    R = lambda n, lo=0.5, hi=4, sh=sh: H.add(n, X.reals(n, sh, lo, hi))
    A = lambda n, vals, sh=sh: H.add(n, X.array(vals, sh))
    rewind = True
    if m.startswith('binned_spread_skill'):
        f = X.fn('utils_ss', 'binned_spread_skill')
        a = R('variance', sh=(2, 2)), R('sq_error', sh=(2, 2))
        go = lambda: f(*a, 2, (0,), **(dict(boot_samples=2, repeats=2) if m.endswith('boot') else {}))
    elif m.startswith('reliability_diagram'):
        f = U('reliability_diagram')
        a = A('p', [0.25, 0.75, 0.9], (3,)), H.add('o', X.bools('o', (3,)))
        go = lambda: f(*a, 2, (0,), **(dict(boot_samples=2, repeats=2) if m.endswith('boot') else {}))
    elif m.startswith('ens_to_prob') or m == 'kde':
        if m == 'kde': X.setenv(ens_to_prob_method='kde', kde_samples=3)
        f = U('ens_to_prob')
        e = R('ens', 0, 4, (2, 2)) if m != 'kde' else A('ens', [1.0, 2.0, 2.5, 0.5], (2, 2))
        for i in range(2):
            if m != 'kde': X.assume(e[0, i] - e[1, i] >= 0.25)
        t = R('t') if m == 'ens_to_prob-array' else 1.5
        go = lambda: f(e, 0, over=t) if m.endswith('over') else f(e, 0, below=t)
    elif m == 'rank_histogram':
        f, a = U('rank_histogram'), (R('ens', 0, 4, (2, 2)), R('o', 0, 4))
        go = lambda: f(a[0], a[1], 0)
    elif m in ('boot_arr', 'boot_vec'):
        f, a = U(m), R('x', sh=(2,) if m == 'boot_vec' else (2, 2))
        go = lambda: f(a, 2, 2) if m == 'boot_vec' else f(a, (0,), 2, 2)
    elif m == 'calculate_roc':
        f, a = U(m), (A('p', [0.25, 0.75, 0.9], (3,)), H.add('o', X.bools('o', (3,))))
        X.assume(X.and_(X.anyof(X.cells(a[1])), X.not_(X.allof(X.cells(a[1])))))
        go = lambda: f(*a)
    elif m == 'binarize_obs':
        f, a = U(m), R('o')
        go = lambda: f(a, over=1.5)
    elif m == 'iou_determ':
        f, a = U(m), (R('f'), R('o'))
        go = lambda: f(*a, over=1.5)
    elif m == 'iou_prob':
        f, a = U(m), (R('p', 0, 1), H.add('o', X.bools('o', sh)))
        go = lambda: f(*a, over=0.5)
    elif m in ('corr', 'brier_decomp'):
        f = X.fn('utils_special_boot', m)
        a = (R('f', 0, 1), R('o', 0, 1)) if m == 'corr' else (A('f', [0.25, 0.75]), H.add('o', X.bools('o', sh)))
        if m == 'corr':
            for z in a: X.assume(z[0] - z[1] >= 0.25)
        go = lambda: f(*a, (0,), 2, 2, 0.9)
    elif m == 'crps_gamma':
        f, a = X.fn('utils_crps', m), (A('mu', [1.0, 2.0]), A('sigma', [1.0, 0.5]), A('shift', [-0.5, -1.0]), R('o', 0, 4))
        go = lambda: f(*a, reduce_sum=False)
    elif m == 'crps_truncated_gaussian':
        f, a = X.fn('utils_crps', m), (R('o', 0, 4), A('mu', [1.0, 2.0]), A('sigma', [1.0, 0.5]))
        go = lambda: f(*a, l=0)
    elif m.startswith('cdf_'):
        n, t = m.split('-')[0], m.endswith('-t')
        f = X.fn('utils_dist', n)
        a = {'cdf_gaussian': lambda: (R('mu'), A('sigma', [1.0, 0.5])), 'cdf_gamma': lambda: (A('mu', [1.0, 2.0]), A('sigma', [1.0, 0.5]), A('shift', [-0.5, -1.0])),
             'cdf_gamma_hurdle': lambda: (R('pop', 0, 1), A('mu', [1.0, 2.0]), A('sigma', [1.0, 0.5]))}[n]()
        th = R('t', 0, 4)
        kw = {'truncated': True} if t else {}
        go = lambda: f(*a, th, **kw)
    elif m.startswith('sample_dist'):
        f = X.fn('utils_dist', m.split('-')[0])
        a = (A('mu', [1.0, 2.0]), A('sigma', [1.0, 0.5])) if 'gaussian' in m else (A('mu', [1.0, 2.0]), A('sigma', [1.0, 0.5]), A('shift', [-0.5, -1.0]))
        go = lambda: f(*a, 2, truncated=m.endswith('-t'))
    elif m == 'diebold_mariano_test':
        f, a = X.fn('utils_significance', m), (R('a', sh=(3,)), A('p', [1.0, 2.0, 2.5], (3,)), A('q', [0.0, 1.5, 1.0], (3,)))
        go = lambda: [X.array([X.scalar(v)]) for v in f(*a, crit='MAD')]
        d = [X.abs(a[0][i] - a[1][i]) - X.abs(a[0][i] - a[2][i]) for i in range(3)]
        X.assume(X.or_(d[0] - d[1] >= 0.25, d[1] - d[0] >= 0.25))
    elif m.startswith('reliability_index'):
        f = X.cls('Verify').reliability_index
        a = R('h', 1, 4, (3,)) if not m.endswith('list') else [1.0, 2.0, 3.0]
        go = lambda: f(a)
    elif m.startswith('Integration'):
        mu, sg, o = A('mu', [1.0, 2.0]), A('sigma', [1.0, 0.5]), R('o', 0, 4)
        fd = H.add('f', {'mu': mu, 'sigma': sg})
        v = X.cls('VerifyProbGaussian')(fd, o)
        I = X.fn('utils_approximation', 'Integration')
        go = lambda: getattr(I(v, integration_range=(0.0, 4.0), nbins=2), m.split('-')[1])()
    else:
        f, a, k = X.fn('Grid', 'write_matrix'), R('mat', sh=(2, 2)), [0]
        def go():
            k[0] += 1
            f(X.tmp + '/m%d.txt' % k[0], a)
    def call():
        X.rewind()
        return go()
    r = call()
    H.check(m)
    if m in ('reliability_index-list',): X.prove(a == [1.0, 2.0, 3.0], m + ' leaves its list as it was')
    H.apart(r, m)
    keep = [X.copy(x) for x in flat(X, r)] if r is not None else []
    spoil(r)
    H.check('writing into the result of ' + m)
    r = call()
    if r is not None:
        for x, y in zip(keep, flat(X, r)): X.eq(y, x, 'repeated ' + m)
    H.check('repeated ' + m)
