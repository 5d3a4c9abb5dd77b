"""Verifiers of every kind built from named inputs, and their metrics (shared by the order and unit properties)."""
from .common import *

DET = ['error', 'ab_error', 'sq_error', 'rmse', 'corr', 'iou_determ', 'f_determ']
EVENT = ['cdf', 'sharpness', 'brier', 'decomp', 'rel', 'roc', 'iou_prob']
METRICS = {'determ': DET, 'ens': DET + EVENT + ['spread', 'variance', 'crps', 'ss', 'rank'],
           'gauss': DET + EVENT + ['variance', 'crps', 'ss', 'rank', 'members'], 'tgauss': EVENT + ['crps', 'rank', 'members'],
           'gamma': DET + EVENT + ['variance', 'crps', 'ss', 'rank', 'members'], 'tgamma': EVENT + ['rank', 'members'],
           'hurdle': EVENT + ['crps', 'variance', 'f_determ', 'error', 'rank']}
PER_CELL = ('f_determ', 'cdf', 'sharpness', 'variance', 'rank', 'members')
POWER = {'error': 1, 'ab_error': 1, 'sq_error': 2, 'rmse': 1, 'spread': 1, 'variance': 2, 'crps': 1, 'f_determ': 1, 'ss': 1, 'members': 1}
VALUED = {'f', 'mu', 'shift', 'o'}                   # move with an offset; 'sigma' and 'unshifted_mu' only with the factor
SCALED = VALUED | {'sigma', 'unshifted_mu'}


def inputs(X, kind, shape, n, m):
    """Named inputs, members last; values of the classes a metric needs kept apart where order or ties matter."""
    o = X.reals('o', shape, -20, 20)
    if kind == 'determ': d = {'f': X.reals('f', shape, -20, 20)}
    elif kind == 'ens':
        if m == 'ss':
            mid, h = X.reals('mid', shape, -20, 20), X.reals('h', shape, 0.1, 10)
            d = {'f': X.arr(shape + (n,), lambda *k: mid[k[:-1]] + (2.0 * k[-1] / (n - 1) - 1) * h[k[:-1]])}
            apart(X, X.cells(h), 0.01)
        else: d = {'f': X.reals('f', shape + (n,), -20, 20)}
        if m == 'rank':
            for k in X.np.ndindex(*shape):
                for i in range(n): X.assume(X.or_(d['f'][k + (i,)] - o[k] >= 0.01, o[k] - d['f'][k + (i,)] >= 0.01))
    elif kind in ('gauss', 'tgauss'): d = {'mu': X.reals('mu', shape, *((-20, 20) if kind == 'gauss' else (0, 20))), 'sigma': X.reals('sigma', shape, 0.5, 10)}
    elif kind in ('gamma', 'tgamma'):
        um, sh = X.reals('um', shape, 1, 20), X.reals('shift', shape, -3, -0.5)
        d = {'unshifted_mu': um, 'shift': sh, 'mu': X.arr(shape, lambda *k: um[k] + sh[k]), 'sigma': X.reals('sigma', shape, 0.5, 5)}
    else: d = {'pop': X.reals('pop', shape, 0, 1), 'mu': X.reals('mu', shape, 1, 20), 'sigma': X.reals('sigma', shape, 0.5, 5)}
    if m == 'ss' and kind != 'ens': apart(X, X.cells(d['sigma']), 0.01)
    if m == 'rank' and kind != 'ens':
        for c in X.cells(o): X.assume(X.or_(c >= 0.01, c <= -0.01))
    return d, o


def apart(X, cs, eps):
    for i in range(len(cs)):
        for j in range(i): X.assume(X.or_(cs[i] - cs[j] >= eps, cs[j] - cs[i] >= eps))


def spread_out(X, d, o, ax):
    """Correlations need some spread."""
    f = d.get('mu', d.get('f'))
    for g in (o,) + ((f,) if f.ndim == o.ndim else ()):
        for _, cs in X.slices(g, ax): X.assume(X.or_(cs[0] - cs[1] >= 0.1, cs[1] - cs[0] >= 0.1))
    if f.ndim != o.ndim:
        n = f.shape[-1]
        c = X.arr(o.shape, lambda *k: X.mean([f[k + (i,)] for i in range(n)]))
        for _, cs in X.slices(c, ax): X.assume(X.or_(cs[0] - cs[1] >= 0.1, cs[1] - cs[0] >= 0.1))


def verifier(X, kind, d, o, ax=None, factor=1.0, auto_range=False, **kw):
    if kind == 'determ': return X.cls('VerifyDeterm')(d['f'], o, avg_axis=ax, **kw)
    if kind == 'ens': return X.cls('VerifyEnsemble')(d['f'], o, ensemble_axis=-1, avg_axis=ax, **kw)
    if kind == 'hurdle':
        return X.cls('VerifyProbGammaHurdle')(d, o, n_approx_bins=3, integration_range=None if auto_range else (-2.0 * factor, 24.0 * factor), avg_axis=ax, pit_randomize_zero_ranks=False, **kw)
    c = {'gauss': 'VerifyProbGaussian', 'gamma': 'VerifyProbGamma'}[kind.lstrip('t')]
    return X.cls(c)(d, o, truncated=kind[0] == 't', avg_axis=ax, pit_randomize_zero_ranks=False, **kw)


def measure(X, v, m, t):
    """t: threshold (already in the units of the data)."""
    X.rewind()
    if m == 'cdf': return v.cdf(below=t)
    if m == 'sharpness': return v.sharpness(over=t)
    if m == 'brier': return v.brier(over=t)
    if m == 'decomp': return v.brier_decomp(below=t)
    if m == 'rel': return v.reliability(nbins=2, over=t)
    if m == 'roc': return v.roc(over=t)
    if m == 'iou_determ': return v.iou_determ(over=t)
    if m == 'iou_prob': return v.iou_prob(over=(t, 0.4), below=(None, None))
    if m == 'ss': return v.binned_spread_skill(nbins=2)
    if m == 'rank': return v.rank_hist()
    if m == 'members': return v.set_ensemble_members(2).prob_to_ens()
    return getattr(v, m)()
