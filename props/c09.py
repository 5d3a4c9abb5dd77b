"""C09: ensemble CRPS, spread and variance follow their definitions."""
from .common import *
BOUNDS = 'up to 4 members, up to 4 cells of rank 1-3, any real values in [-100, 100]; member axis first or last; in one go and slice by slice; listed averaging axes'
OUTSIDE = 'larger arrays, rounding'
ASSUMES = ['properscoring.crps_ensemble is executed from its installed source (its numpy branch)']


def configs(tier):
    out = []
    cs = [(1, (2,), None), (2, (2,), None), (3, (1,), None), (3, (2,), [0]), (2, (2, 2), [0]), (2, (2, 2), [1]), (2, (2, 2), None), (2, (1, 2, 2), [0, -1]), (2, (2, 2), [-1]), (3, (2, 1), [0])]
    if tier != 'quick': cs += [(4, (2,), None), (3, (2, 2), [0]), (5, (1,), None), (3, (2, 1, 2), [1]), (2, (3, 2), [0])]
    for n, sh, ax in cs:
        for first in (True, False):
            for split in (True, False):
                out.append({'name': '%d-%s-%s-%s-%s' % (n, name(sh), axname(ax), 'first' if first else 'last', 'split' if split else 'whole'),
                            'params': {'n': n, 'shape': list(sh), 'ax': ax, 'first': first, 'split': split}, 'weight': n})
    return out


def run(X, n, shape, ax, first, split):
    shape, ax = tuple(shape), tup(ax)
    f = X.reals('f', (n,) + shape if first else shape + (n,), -100, 100)
    o = X.reals('o', shape, -100, 100)
    X.setenv(split_crps_ensemble_along_0=split)
    v = X.cls('VerifyEnsemble')(f, o, ensemble_axis=0 if first else len(shape), avg_axis=ax)
    def crps(*k):
        ms = members(f, k, n, first)
        return X.mean([X.abs(m - o[k]) for m in ms]) - X.sum([X.abs(a - b) for a in ms for b in ms]) / (2.0 * n * n)
    def spread(*k):
        ms = members(f, k, n, first)
        return X.maxof(ms) - X.minof(ms)
    def var(*k):
        ms = members(f, k, n, first)
        mu = X.mean(ms)
        return X.mean([(m - mu) * (m - mu) for m in ms])
    X.eq(v.crps(), X.pooled(X.arr(shape, crps), ax, X.mean), 'CRPS')
    if not split:
        X.eq(v.spread(), X.pooled(X.arr(shape, spread), ax, X.mean), 'spread')
        X.eq(v.variance(), X.arr(shape, var), 'variance')
