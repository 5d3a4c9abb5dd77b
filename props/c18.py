"""C18: the probability integral transform equals the CDF at the observation."""
from .common import *
from . import c06
BOUNDS = 'up to 3 cells of rank 1-2, parameters as in C06, any observation in [-100, 100] including exactly zero, every random draw; randomisation on and off'
OUTSIDE = 'larger arrays, more extreme parameters'


def configs(tier):
    out = []
    for kind in ('gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle'):
        for sh in ((1,), (2,), (1, 2)) if tier == 'quick' else ((1,), (2,), (3,), (2, 2), (1, 2, 1)):
            for rnd in (True, False):
                for api in ('pit', 'rank_hist'):
                    if tier == 'quick' and api == 'pit' and sh == (1, 2): continue
                    out.append({'name': '%s-%s-%s-%s' % (kind, name(sh), rnd, api), 'params': {'kind': kind, 'shape': list(sh), 'rnd': rnd, 'api': api}})
    out.append({'name': 'drawn', 'params': {'kind': None, 'shape': [2], 'rnd': True, 'api': 'pit'}})
    return out


def drawn(X):
    # really random, and over the whole range
    w = X.cls('VerifyProbGammaHurdle')({'pop': X.np.ones((2,)) * 0.5, 'mu': X.np.ones((2,)), 'sigma': X.np.ones((2,))}, X.array([0.0, 2.0]))
    def once():
        X.rewind()
        return w.pit()
    X.exists_draw(once, lambda g: g[0] < 0.1, 'small values can be drawn')
    X.exists_draw(once, lambda g: g[0] > 0.4, 'large values can be drawn')


def run(X, kind, shape, rnd, api):
    if kind is None: return drawn(X)
    shape = tuple(shape)
    o, p = c06.params(X, kind, shape)
    zero = {}
    if not X.symbolic:
        o = X.copy(o)
    for k in X.np.ndindex(*shape):
        zero[k] = X.choose(2, 'zero')
        if zero[k]: o[k] = 0.0
        else:
            X.assume(o[k] != 0)
            X.apart(o[k], 0)
            if kind == 'gamma': X.apart(o[k], p['shift'][k])
    v = c06.verifier(X, kind, p, o, pit_randomize_zero_ranks=rnd)
    got = getattr(v, api)()
    X.prove(tuple(got.shape) == shape, 'one value per observation')
    for k in X.np.ndindex(*shape):
        c = c06.cdf(X, kind, p, k, o[k])
        if zero[k] and rnd: X.prove(X.and_(got[k] >= -1e-9, got[k] <= c + 1e-9), 'a zero observation is drawn between zero and its CDF value')
        else: X.eq(got[k], c, 'CDF at the observation')
        X.prove(X.and_(got[k] >= -1e-9, got[k] <= 1 + 1e-9), 'in [0, 1]')
