"""C20: closed-form CRPS matches its formula and is finite for valid inputs."""
import math
from .common import *
from . import c06
BOUNDS = 'up to 2 cells of rank 1-2; means in [-50, 50] (truncated: at least -2 spreads), spreads in [0.5, 20]; for finiteness and gamma means up to 1000 and spreads down to 0.01; any observation in [-100, 100]'
OUTSIDE = 'larger arrays, more extreme parameters, accuracy of the library\'s special functions'
ASSUMES = ['properscoring.crps_gaussian is executed from its installed source']


def configs(tier):
    out = []
    for kind in ('gauss', 'tgauss', 'gamma'):
        for sh, ax in (((1,), None), ((2,), None), ((1, 2), [0])) if tier == 'quick' else (((1,), None), ((3,), None), ((2, 2), [0]), ((2, 2), [-1])):
            for what in ('formula', 'scale'):
                if tier == 'quick' and what == 'scale' and kind == 'gamma' and sh != (1,): continue
                out.append({'name': '%s-%s-%s-%s' % (what, kind, name(sh), axname(ax)), 'params': {'what': what, 'kind': kind, 'shape': list(sh), 'ax': ax}})
        out.append({'name': 'finite-%s' % kind, 'params': {'what': 'finite', 'kind': kind, 'shape': [1], 'ax': None}})
    out.append({'name': 'function-gamma', 'params': {'what': 'function', 'kind': 'gamma', 'shape': [2], 'ax': None}})
    out.append({'name': 'function-tgauss', 'params': {'what': 'function', 'kind': 'tgauss', 'shape': [2], 'ax': None}})
    return out


def pdf(X, z): return X.exp(0 - z * z / 2.0) / math.sqrt(2 * math.pi)


def oracle(X, kind, p, k, o):
    """Published closed forms."""
    if kind == 'gauss':
        s = p['sigma'][k]
        z = (o - p['mu'][k]) / s
        return s * (z * (2 * X.phi(z) - 1) + 2 * pdf(X, z) - 1 / math.sqrt(math.pi))
    if kind == 'tgauss':
        s = p['sigma'][k]
        y, l = (o - p['mu'][k]) / s, (0 - p['mu'][k]) / s
        z = l if X.decide(o < 0) else y
        fl = X.phi(l)
        a = X.div(1.0, 1 - fl)
        return s * (X.abs(y - z) + a * z * (2 * X.phi(z) - 1 - fl) + 2 * a * pdf(X, z) - a * a * (1 - X.phi(l * math.sqrt(2))) / math.sqrt(math.pi))
    a, th = c06.shape_scale(p, k)
    d = p['shift'][k]
    y, c = (o - d) / th, (0 - d) / th
    G = lambda sh, x: X.ginc(sh, x)
    beta = X.exp(X.lgam(0.5) + X.lgam(a + 0.5) - X.lgam(a + 1.0))
    fc = G(a, c)
    return th * (y * (2 * G(a, y) - 1) - a * (2 * G(a + 1, y) - 1 + fc * fc - 2 * G(a + 1, c) * fc) - c * fc * fc - a / math.pi * beta * (1 - G(2 * a, 2 * c)))


def run(X, what, kind, shape, ax):
    shape, ax = tuple(shape), tup(ax)
    if what == 'finite':
        o = X.reals('o', shape, -100, 100)
        mu, sg = X.reals('mu', shape, 0.01, 1000), X.reals('sigma', shape, 0.01, 20)
        sh = X.reals('shift', shape, -5, 0)
        p = {'mu': X.arr(shape, lambda *k: mu[k] + sh[k]), 'sigma': sg, 'shift': sh, 'unshifted_mu': mu} if kind == 'gamma' else {'mu': mu, 'sigma': sg}
        c = X.cells(c06.verifier(X, kind, p, o).crps())
        for x in c: X.prove(X.finite(x), 'a finite number')
        return
    o, p = c06.params(X, kind, shape)
    if kind == 'gamma':
        for k in X.np.ndindex(*shape): X.assume(p['shift'][k] <= 0); X.apart(o[k], p['shift'][k])
        if not X.symbolic:
            # below the support and with extreme shapes the incomplete gamma function underflows
            for k in X.np.ndindex(*shape): X.assume(c06.shape_scale(p, k)[0] < 1e3)
    if what == 'formula':
        got = c06.verifier(X, kind, p, o, avg_axis=ax).crps()
        want = X.arr(shape, lambda *k: oracle(X, kind, p, k, o[k]))
        X.eq(got, X.pooled(want, ax, X.mean), 'CRPS')
        return
    if what == 'function':
        want = X.arr(shape, lambda *k: oracle(X, kind, p, k, o[k]))
        if kind == 'gamma':
            f = X.fn('utils_crps', 'crps_gamma')
            X.eq(f(p['unshifted_mu'], p['sigma'], p['shift'], o, reduce_sum=False), want, 'cell by cell')
            
            got = f(p['unshifted_mu'], p['sigma'], p['shift'], o, reduce_sum=False)
            X.eq(X.scalar(f(p['unshifted_mu'], p['sigma'], p['shift'], o)), X.mean(X.cells(got)), 'averaged')
        else: X.eq(X.fn('utils_crps', 'crps_truncated_gaussian')(o, p['mu'], p['sigma'], 0), want, 'cell by cell')
        return
    c = X.real('c', 0.1, 10)
    q = {n: X.arr(shape, lambda *k: c * a[k]) for n, a in p.items()}
    o2 = X.arr(shape, lambda *k: c * o[k])
    a, b = c06.verifier(X, kind, p, o, avg_axis=ax).crps(), c06.verifier(X, kind, q, o2, avg_axis=ax).crps()
    X.eq(b, X.pooled(X.arr(X.np.shape(a), lambda *k: c * a[k]), (), lambda cs: cs[0]) if X.np.shape(a) else c * X.scalar(a), 'scales linearly', tol=1e-4)
