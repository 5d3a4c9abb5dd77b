"""C06: parametric CDFs are the right distribution's CDF, bounded and complementary."""
from .common import *
BOUNDS = 'arrays of rank 1-2 with up to 3 cells; means in [-50, 50] (at least -2 spreads when truncated), spreads in [0.5, 20], shifts in [-5, 0] (positive too when not truncated), ' \
         'any threshold in [-100, 100], scalar or per cell'
OUTSIDE = 'larger arrays, more extreme parameters, accuracy of the library\'s special functions'
ASSUMES = ['scipy.stats evaluates normal, gamma and truncated normal distributions from the special functions it is documented to use']


def configs(tier):
    out = []
    for kind in ('gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle'):
        for sh in ((1,), (2,), (1, 2)) if tier == 'quick' else ((1,), (3,), (2, 2), (1, 2, 1)):
            for thr in ('scalar', 'cell', 'int'):
                if thr == 'int' and sh != (2,) and tier == 'quick': continue
                for api in ('verifier', 'function'):
                    if tier == 'quick' and api == 'function' and sh == (1, 2): continue
                    out.append({'name': '%s-%s-%s-%s' % (kind, name(sh), thr, api), 'params': {'kind': kind, 'shape': list(sh), 'thr': thr, 'api': api},
                                'weight': 2 if kind.startswith('t') else 1})
    return out


def params(X, kind, shape):
    o = X.reals('o', shape, -100, 100)
    if kind in ('gauss', 'tgauss'):
        mu, sg = X.reals('mu', shape, -50, 50), X.reals('sigma', shape, 0.5, 20)
        if kind == 'tgauss':
            for k in X.np.ndindex(*shape): X.assume(mu[k] >= -2 * sg[k])
        return o, {'mu': mu, 'sigma': sg}
    if kind == 'hurdle': return o, {'pop': X.reals('pop', shape, 0, 1), 'mu': X.reals('mu', shape, 0.5, 50), 'sigma': X.reals('sigma', shape, 0.5, 20)}
    um, sg = X.reals('um', shape, 0.5, 50), X.reals('sigma', shape, 0.5, 20)
    sh = X.reals('shift', shape, -5, 0 if kind == 'tgamma' else 5)
    mu = X.arr(shape, lambda *k: um[k] + sh[k])
    p = {'mu': mu, 'sigma': sg, 'shift': sh, 'unshifted_mu': um}
    if kind == 'tgamma':
        for k in X.np.ndindex(*shape):
            a, s = shape_scale(p, k)
            X.assume(X.ginc(a, (0 - sh[k]) / s) <= 0.99)
    return o, p


def shape_scale(p, k):
    m = p['unshifted_mu'][k] if 'unshifted_mu' in p else p['mu'][k]
    s = p['sigma'][k]
    return (m / s) * (m / s), s * s / m


def cdf(X, kind, p, k, t):
    """The distribution function from its definition."""
    if kind == 'gauss': return X.phi((t - p['mu'][k]) / p['sigma'][k])
    if kind == 'tgauss':
        z, a = (t - p['mu'][k]) / p['sigma'][k], (0 - p['mu'][k]) / p['sigma'][k]
        return X.ite(t <= 0, 0.0, X.div(X.phi(z) - X.phi(a), 1 - X.phi(a)))
    a, s = shape_scale(p, k)
    if kind == 'gamma': return X.ginc(a, (t - p['shift'][k]) / s)
    if kind == 'tgamma':
        z = p['shift'][k]
        pa = X.ginc(a, (0 - z) / s)
        return X.ite(t <= 0, 0.0, X.div(X.ginc(a, (t - z) / s) - pa, 1 - pa))
    return (1 - p['pop'][k]) + X.ite(t <= 0, 0.0, p['pop'][k] * X.ginc(a, X.ite(t <= 0, 1.0, t) / s))


def verifier(X, kind, p, o, **k):
    if kind in ('gauss', 'tgauss'): return X.cls('VerifyProbGaussian')(p, o, truncated=kind == 'tgauss', **k)
    if kind in ('gamma', 'tgamma'): return X.cls('VerifyProbGamma')(p, o, truncated=kind == 'tgamma', **k)
    return X.cls('VerifyProbGammaHurdle')(p, o, **k)


def below_fn(X, kind, p):
    if kind in ('gauss', 'tgauss'):
        f = X.fn('utils_dist', 'cdf_gaussian')
        return lambda t: f(p['mu'], p['sigma'], t, truncated=kind == 'tgauss')
    if kind in ('gamma', 'tgamma'):
        f = X.fn('utils_dist', 'cdf_gamma')
        return lambda t: f(p['unshifted_mu'], p['sigma'], p['shift'], t, truncated=kind == 'tgamma')
    f = X.fn('utils_dist', 'cdf_gamma_hurdle')
    return lambda t: f(p['pop'], p['mu'], p['sigma'], t)


def run(X, kind, shape, thr, api):
    shape = tuple(shape)
    o, p = params(X, kind, shape)
    if thr == 'scalar': t, t2 = X.real('t', -100, 100), X.real('t2', -100, 100)
    elif thr == 'int': t, t2 = 2, 5
    else: t, t2 = X.reals('t', shape, -100, 100), X.reals('t2', shape, -100, 100)
    at = lambda u, k: u[k] if thr == 'cell' else u
    if kind == 'gamma':
        # the support starts at the shift: keep replays away from rounding of (t - shift) / scale around zero
        for k in X.np.ndindex(*shape): X.apart(at(t, k), p['shift'][k]); X.apart(at(t2, k), p['shift'][k])
    if api == 'verifier':
        v = verifier(X, kind, p, o)
        below = lambda u: v.cdf(below=u)
        X.eq(v.cdf(over=t), 1 - below(t), 'exceedance is the complement')
        X.eq(v.sharpness(below=t), below(t), 'sharpness')
        X.refuses(lambda: v.cdf(), 'a threshold is required')
        X.refuses(lambda: v.cdf(over=t, below=t), 'only one threshold')
    else: below = below_fn(X, kind, p)
    got = below(t)
    X.eq(got, X.arr(shape, lambda *k: cdf(X, kind, p, k, at(t, k))), 'probability below the threshold')
    g2 = below(t2)
    for k in X.np.ndindex(*shape):
        X.prove(X.and_(got[k] >= 0, got[k] <= 1), 'probability in [0, 1]')
        X.prove(X.implies(at(t, k) <= at(t2, k), got[k] <= g2[k]), 'probability does not decrease with the threshold')
        if kind in ('tgauss', 'tgamma'): X.prove(X.implies(at(t, k) <= 0, got[k] == 0), 'no mass below zero')
