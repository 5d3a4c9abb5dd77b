"""C35: central forecasts and variances are those of the forecast itself."""
from .common import *
BOUNDS = 'arrays of rank 1-3 with 1-3 cells per axis, 2-3 members, every averaging axis, truncated or not, sampled or not; mean, max and min as collapse functions; any values'
OUTSIDE = 'larger arrays; the accuracy of the integrated moments of hurdle forecasts (C22)'


def configs(tier):
    out = []
    for kind in ('determ', 'ens', 'gauss', 'gamma'):
        for sh in ((1,), (3,), (2, 2), (1, 3), (2, 1, 2)): out.append({'name': '%s-%s' % (kind, name(sh)), 'params': {'kind': kind, 'shape': list(sh)}, 'weight': 2})
    for sh in ((2,), (2, 2)): out.append({'name': 'hurdle-%s' % name(sh), 'params': {'kind': 'hurdle', 'shape': list(sh)}, 'weight': 3})
    return out


def run(X, kind, shape):
    shape = tuple(shape)
    o = X.reals('o', shape, -100, 100)
    axes = [None, [0], [-1]] + ([[0, -1]] if len(shape) > 1 else [])
    ax = tup(axes[X.choose(len(axes), 'axis')])
    kw = {'avg_axis': ax}
    if X.choose(2, 'bootstrap'): kw['boot_samples'] = 2
    if kind not in ('determ', 'ens', 'hurdle'):
        if X.choose(2, 'truncated'): kw['truncated'] = True
        if X.choose(2, 'sampled'): kw.update(n_sample_members=2, clip_member_to_zero=0.5)
    var = None
    if kind == 'determ':
        f = X.reals('f', shape, -100, 100)
        v, c = X.cls('VerifyDeterm')(f, o, **kw), f
    elif kind == 'ens':
        n = 3 if len(shape) == 1 else 2
        first = X.choose(2, 'first')
        f = X.reals('f', ((n,) + shape) if first else shape + (n,), -100, 100)
        ms = {k: members(f, k, n, first) for k in X.np.ndindex(*shape)}
        how = X.choose(3, 'collapse')
        if how: kw['ensemble_collapse_func'] = (X.np.max, X.np.min)[how - 1]
        v = X.cls('VerifyEnsemble')(f, o, ensemble_axis=0 if first else -1, **kw)
        c = X.arr(shape, lambda *k: (X.mean, X.maxof, X.minof)[how](ms[k]))
        var = X.arr(shape, lambda *k: X.mean([(x - X.mean(ms[k])) * (x - X.mean(ms[k])) for x in ms[k]]))
    elif kind == 'hurdle':
        d = {'pop': X.reals('pop', shape, 0, 1), 'mu': X.reals('mu', shape, 0.5, 20), 'sigma': X.reals('sigma', shape, 0.5, 10)}
        kw.pop('boot_samples', None)
        v = X.cls('VerifyProbGammaHurdle')(d, o, n_approx_bins=3, integration_range=(-1.0, 5.0), **kw)
        xs, ps = (-1.0, 2.0, 5.0), [v.cdf(below=x) for x in (-1.0, 2.0, 5.0)]
        mass = lambda k: [ps[i + 1][k] - ps[i][k] for i in range(2)]
        mean = lambda k: X.sum([q * (xs[i] + xs[i + 1]) / 2 for i, q in enumerate(mass(k))])
        c = X.arr(shape, lambda *k: mean(k))
    else:
        mu, sg = X.reals('mu', shape, -100, 100), X.reals('sigma', shape, 0.01, 50)
        d = {'mu': mu, 'sigma': sg}
        if kind == 'gamma': d.update(shift=X.reals('shift', shape, -10, -0.1), unshifted_mu=X.reals('um', shape, 0.5, 100))
        v = X.cls({'gauss': 'VerifyProbGaussian', 'gamma': 'VerifyProbGamma'}[kind])(d, o, **kw)
        c, var = mu, X.arr(shape, lambda *k: sg[k] * sg[k])
    X.eq(v.f_determ(), c, 'central forecast')
    if var is not None: X.eq(v.variance(), var, 'variance')
    if 'boot_samples' not in kw:
        X.eq(v.error(), X.pooled(X.arr(shape, lambda *k: c[k] - o[k]), ax, X.mean), 'error of the central forecast')
        X.eq(v.sq_error(), X.pooled(X.arr(shape, lambda *k: (c[k] - o[k]) * (c[k] - o[k])), ax, X.mean), 'squared error of the central forecast')
    X.eq(v.f_determ(), c, 'central forecast again')
