"""C12: correlation is Pearson's over the pooled, correctly paired samples."""
from .common import *
from .c02 import check_corr
from . import c06
BOUNDS = '2-4 pooled pairs per slice, arrays of rank 1-3, any values in [-100, 100] with non-degenerate spread; deterministic, ensemble, Gaussian and gamma verifiers, hurdle with known central forecast'
OUTSIDE = 'larger arrays; degenerate slices (zero variance)'


def configs(tier):
    out = []
    cs = [((2,), None), ((3,), None), ((2, 2), None), ((2, 2), [0]), ((2, 2), [-1]), ((2, 1, 2), [2, 0]), ((2, 2, 1), [-3])]
    for kind in ('det', 'ens', 'gauss', 'gamma'):
        for sh, ax in cs:
            if kind in ('gauss', 'gamma') and tier == 'quick' and len(sh) == 3: continue
            out.append({'name': '%s-%s-%s' % (kind, name(sh), axname(ax)), 'params': {'kind': kind, 'shape': list(sh), 'ax': ax}})
    for kind in ('affine', 'scale', 'sym', 'down'):
        for sh in ((2,), (3,), (2, 2)): out.append({'name': '%s-%s' % (kind, name(sh)), 'params': {'kind': kind, 'shape': list(sh), 'ax': None}})
    return out


def spread_out(X, xs): X.assume(X.or_(xs[0] - xs[1] >= 0.5, xs[1] - xs[0] >= 0.5))


def run(X, kind, shape, ax):
    shape, ax = tuple(shape), tup(ax)
    # four pooled pairs: two symbolic, two constant
    part = ax is None and shape == (2, 2) or shape == (2, 1, 2)
    def values(nm, lo, hi, c):
        if not part: return X.reals(nm, shape, lo, hi)
        s = X.reals(nm, (2,), lo, hi)
        return X.array([s[0], c[0], s[1], c[1]], shape)
    o = values('o', -100, 100, (0.75, -2.0))
    corr = X.fn('utils_special_boot', 'corr')
    for kk, cs in X.slices(o, ax): spread_out(X, cs)
    if kind in ('affine', 'down'):
        a, b = X.real('a', 0.1, 10), X.real('b', -10, 10)
        f = X.arr(shape, lambda *k: (a if kind == 'affine' else 0 - a) * o[k] + b)
        X.eq(X.scalar(X.cls('VerifyDeterm')(f, o).corr()), 1.0 if kind == 'affine' else -1.0, 'correlation of an affine function')
        return
    f = values('f', -100, 100, (3.0, 1.25))
    for kk, cs in X.slices(f, ax): spread_out(X, cs)
    if kind == 'scale':
        a, b = X.real('a', 0.1, 10), X.real('b', -10, 10)
        r = X.scalar(X.cls('VerifyDeterm')(f, o).corr())
        X.eq(X.scalar(X.cls('VerifyDeterm')(X.arr(shape, lambda *k: a * f[k] + b), o).corr()), r, 'unchanged under rescaling of the forecasts')
        X.eq(X.scalar(X.cls('VerifyDeterm')(f, X.arr(shape, lambda *k: a * o[k] + b)).corr()), r, 'unchanged under rescaling of the observations')
        return
    if kind == 'sym':
        X.eq(X.scalar(corr(f, o)), X.scalar(corr(o, f)), 'symmetric')
        return
    if kind == 'det': v = X.cls('VerifyDeterm')(f, o, avg_axis=ax)
    elif kind == 'ens':
        d = X.reals('d', shape, 0, 10)
        v = X.cls('VerifyEnsemble')(X.arr((2,) + shape, lambda m, *k: f[k] + (d[k] if m else 0 - d[k])), o, ensemble_axis=0, avg_axis=ax)
    elif kind == 'gauss': v = X.cls('VerifyProbGaussian')({'mu': f, 'sigma': X.reals('sigma', shape, 0.5, 10)}, o, avg_axis=ax)
    else:
        sh = X.reals('shift', shape, -5, 5)
        v = X.cls('VerifyProbGamma')({'mu': f, 'sigma': X.np.ones(shape), 'shift': sh, 'unshifted_mu': X.arr(shape, lambda *k: f[k] - sh[k])}, o, avg_axis=ax)
    got = v.corr()
    X.prove(tuple(X.np.shape(got)) == X.kept_shape(o, ax), 'one correlation per kept position')
    for (kk, fs), (_, os_) in zip(X.slices(f, ax), X.slices(o, ax)): check_corr(X, X.at(got, kk), fs, os_)
