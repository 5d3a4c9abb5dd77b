"""C21: the truncated gamma distribution is internally consistent."""
from .common import *
BOUNDS = '1-2 cells; shapes in [0.3, 20], lower bounds in [0, 10], upper bounds above the lower by 0.1 to 30 or infinite, any x in [-5, 100], any probability; location and scale symbolic'
OUTSIDE = 'more extreme parameters, accuracy of the incomplete gamma functions'


def configs(tier):
    out = []
    for sh in ((1,), (2,)):
        for b in ('finite', 'inf'):
            for what in ('cdf', 'pdf', 'ppf', 'rvs', 'ends'):
                for ls in (False, True):
                    if tier == 'quick' and sh == (2,) and (ls or what in ('ppf', 'rvs')): continue
                    out.append({'name': '%s-%s-%s-%s' % (what, name(sh), b, 'loc' if ls else 'std'), 'params': {'what': what, 'shape': list(sh), 'b': b, 'ls': ls}})
    return out


def run(X, what, shape, b, ls):
    shape = tuple(shape)
    g = X.fn('dist_truncgamma', 'truncgamma_gen')()
    s, a = X.reals('s', shape, 0.3, 20), X.reals('a', shape, 0, 10)
    w = X.reals('w', shape, 0.1, 30)
    bb = X.arr(shape, lambda *k: a[k] + w[k] if b == 'finite' else float('inf'))
    loc = X.real('loc', -5, 5) if ls else 0.0
    scale = X.real('scale', 0.2, 5) if ls else 1.0
    kw = dict(a=a, b=bb, s=s, loc=loc, scale=scale)
    G = lambda k, x: X.ginc(s[k], x)
    mass = lambda k: (1.0 if b == 'inf' else G(k, bb[k])) - G(k, a[k])
    cells = list(X.np.ndindex(*shape))
    if not X.symbolic:
        for k in cells: X.assume(mass(k) > 1e-3)
    if what in ('cdf', 'pdf'):
        x = X.reals('x', shape, -5, 100)
        y = X.arr(shape, lambda *k: (x[k] - loc) / scale)
        got = getattr(g, what)(x, **kw)
        for k in cells:
            X.apart(y[k], a[k]); X.apart(y[k], bb[k]) if b == 'finite' else None
            inside = X.decide(y[k] >= a[k]) and (b == 'inf' or X.decide(y[k] <= bb[k]))
            if what == 'cdf':
                if inside: X.eq(got[k] * mass(k), G(k, y[k]) - G(k, a[k]), 'gamma mass between the lower bound and x over the mass between the bounds')
                else: X.eq(got[k], 0.0 if X.decide(y[k] < a[k]) else 1.0, 'zero below, one above')
                X.prove(X.and_(got[k] >= -1e-9, got[k] <= 1 + 1e-9), 'in [0, 1]')
            elif inside:
                if X.decide(y[k] <= 0): continue
                X.eq(got[k] * mass(k) * scale, X.exp((s[k] - 1.0) * X.log(y[k]) - y[k] - X.lgam(s[k])), 'gamma density over the same mass')
            else: X.eq(got[k], 0.0, 'no density outside the bounds')
        return
    if what == 'ppf':
        q = X.reals('q', shape, 0, 1)
        for k in cells: X.apart(q[k], 0); X.apart(q[k], 1)
        x = g.ppf(q, **kw)
        for k in cells:
            if X.decide(X.or_(q[k] <= 0, q[k] >= 1)): continue
            y = (x[k] - loc) / scale
            X.prove(y >= a[k] - 1e-6 * (1 + a[k]), 'quantiles are not below the lower bound')
            if b == 'finite': X.prove(y <= bb[k] + 1e-6 * (1 + bb[k]), 'quantiles are not above the upper bound')
            X.eq(X.ginc_pos(s[k], X.div(x[k] - loc, scale)) - X.ginc_pos(s[k], a[k]), q[k] * ((1.0 if b == 'inf' else X.ginc_pos(s[k], bb[k])) - X.ginc_pos(s[k], a[k])), 'the quantile function inverts the CDF')
        return
    if what == 'rvs':
        X.rewind()
        r = g(**kw).rvs((2,) + shape)
        X.prove(tuple(r.shape) == (2,) + shape, 'shape of the sample')
        for m in range(2):
            for k in cells:
                y = (r[(m,) + k] - loc) / scale
                X.prove(y >= a[k] - 1e-6 * (1 + a[k]), 'samples are not below the lower bound')
                if b == 'finite': X.prove(y <= bb[k] + 1e-6 * (1 + bb[k]), 'samples are not above the upper bound')
        return
    lo, hi = X.arr(shape, lambda *k: loc + scale * a[k]), X.arr(shape, lambda *k: loc + scale * (bb[k] if b == 'finite' else 1000.0))
    X.eq(g.cdf(lo, **kw), X.np.zeros(shape), 'zero at the lower bound')
    if b == 'finite': X.eq(g.cdf(hi, **kw), X.np.ones(shape), 'one at the upper bound')
    x1, x2 = X.reals('x1', shape, -5, 100), X.reals('x2', shape, -5, 100)
    c1, c2 = g.cdf(x1, **kw), g.cdf(x2, **kw)
    for k in cells: X.prove(X.implies(x1[k] <= x2[k], c1[k] <= c2[k] + 1e-9), 'rises')
    X.prove(X.isnan(X.cells(g.cdf(x1, a=X.arr(shape, lambda *k: -1.0 - a[k]), b=bb, s=s))[0]), 'a negative lower bound is refused')
