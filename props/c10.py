"""C10: Brier score is the squared gap between probability and strict event."""
from .common import *
from . import c06
BOUNDS = 'up to 4 cells of rank 1-3, 2-3 members, any values in [-100, 100], any scalar threshold (floating-point and integer) including thresholds equal to observations; missing observations (no score); parameters as in C06'
OUTSIDE = 'larger arrays, per-cell thresholds'


def configs(tier):
    out = []
    for kind in ('ens', 'gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle'):
        cs = [((2,), None), ((2, 2), [0]), ((2, 2), [-1]), ((1, 2, 1), [1])]
        if kind != 'ens' and tier == 'quick': cs = [((2,), None), ((1, 2), [0])]
        for sh, ax in cs:
            for side in ('over', 'below'):
                out.append({'name': '%s-%s-%s-%s' % (kind, name(sh), axname(ax), side), 'params': {'kind': kind, 'shape': list(sh), 'ax': ax, 'side': side}, 'weight': 2})
    for side in ('over', 'below'):
        for kind in ('ens', 'gauss'): out.append({'name': '%s-missing-%s' % (kind, side), 'params': {'kind': kind, 'shape': [2], 'ax': None, 'side': side, 'missing': True}})
    out.append({'name': 'binarize', 'params': {'kind': 'binarize', 'shape': [2, 2], 'ax': None, 'side': 'over'}})
    return out


def run(X, kind, shape, ax, side, missing=False):
    shape, ax = tuple(shape), tup(ax)
    over = side == 'over'
    if kind == 'binarize':
        o, t = X.reals('o', shape, -100, 100, nan=True), X.real('t', -100, 100)
        b = X.fn('utils_verify', 'binarize_obs')
        tt = X.reals('tt', shape, -100, 100)
        up, low, cell = b(o, over=t), b(o, below=t), b(o, over=tt)
        for k in X.np.ndindex(*shape):
            if X.decide(X.isnan(o[k])):
                for r in (up, low, cell): X.prove(X.isnan(r[k]), 'a missing observation is neither an event nor a non-event')
                continue
            for r, e, what in ((up, o[k] > t, 'above the threshold'), (low, o[k] < t, 'below the threshold'), (cell, o[k] > tt[k], 'above a per-cell threshold')):
                X.prove(X.iff(r[k] == 1, e), 'event ' + what)
                X.prove(X.iff(r[k] == 0, X.not_(e)), 'non-event ' + what)
        X.refuses(lambda: b(o), 'a threshold is required')
        X.refuses(lambda: b(o, over=t, below=t), 'only one threshold')
        return
    t = X.real('t', -100, 100)
    if kind == 'ens':
        n = 2
        f = X.reals('f', shape + (n,), -100, 100)
        o = X.reals('o', shape, -100, 100, nan=missing)
        mk = lambda **k: X.cls('VerifyEnsemble')(f, o, ensemble_axis=len(shape), **k)
        low = lambda k: X.count([m <= t for m in members(f, k, n, False)]) / n
    else:
        o, p = c06.params(X, kind, shape)
        if missing: o = X.reals('om', shape, -100, 100, nan=True)
        mk = lambda **k: c06.verifier(X, kind, p, o, **k)
        base = mk().cdf(below=t)
        low = lambda k: base[k]
    kw = {side: t}
    got = mk(avg_axis=ax).brier(**kw)
    def cell(*k):
        if missing and X.decide(X.isnan(o[k])): return float('nan')
        p_ = 1 - low(k) if over else low(k)
        e = X.ite(o[k] > t if over else o[k] < t, 1.0, 0.0)
        return (p_ - e) * (p_ - e)
    want = X.pooled(X.arr(shape, cell), ax, X.mean)
    X.eq(got, want, 'Brier score')
    if kind == 'ens':
        for kk in X.np.ndindex(*X.kept_shape(o, ax)):
            g = X.at(got, kk)
            if missing and X.decide(X.isnan(g)): continue
            X.prove(X.and_(g >= 0, g <= 1), 'Brier score in [0, 1]')
    else:
        for k in X.np.ndindex(*shape): X.prove(X.and_(low(k) >= 0, low(k) <= 1), 'probability in [0, 1]')
    v = mk(avg_axis=ax)
    X.refuses(lambda: v.brier(), 'a threshold is required')
    X.refuses(lambda: v.brier(over=t, below=t), 'only one threshold')
    got = mk(avg_axis=ax).brier(**{side: 1})
    if kind == 'ens':
        def cell1(*k):
            q = X.count([m <= 1 for m in members(f, k, n, False)]) / n
            p_ = 1 - q if over else q
            if missing and X.decide(X.isnan(o[k])): return float('nan')
            e = X.ite(o[k] > 1 if over else o[k] < 1, 1.0, 0.0)
            return (p_ - e) * (p_ - e)
        X.eq(got, X.pooled(X.arr(shape, cell1), ax, X.mean), 'Brier score of an integer threshold')
