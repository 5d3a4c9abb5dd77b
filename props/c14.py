"""C14: spread-skill bins hold equal shares of variance-ordered, paired samples."""
from .common import *
BOUNDS = 'up to 4 samples per slice (5 thorough), 1-4 bins, any variances and squared errors in [0, 100]; slices along listed axes; ties in variance allowed for the conservation laws'
OUTSIDE = 'more samples; the order among samples of exactly equal variance'


def configs(tier):
    out = []
    cs = [((2,), None, 1), ((2,), None, 2), ((3,), None, 2), ((4,), None, 2), ((4,), None, 3), ((3,), None, 3), ((2, 2), [0], 2), ((2, 2), [-1], 2), ((3, 1), [0], 2), ((1, 2, 2), [0, 1], 2), ((2, 2), None, 3)]
    if tier != 'quick': cs += [((5,), None, 2), ((5,), None, 3), ((3, 2), [0], 2), ((4,), None, 4)]
    for sh, ax, nb in cs:
        for kind in ('direct', 'ties', 'ens', 'gauss'):
            if kind == 'gauss' and len(sh) == 3: continue
            n = 1
            for s in sh: n *= s
            if tier == 'quick' and kind == 'ens' and n > 3 and ax is None: continue
            out.append({'name': '%s-%s-%s-%d' % (kind, name(sh), axname(ax), nb), 'params': {'kind': kind, 'shape': list(sh), 'ax': ax, 'nb': nb}, 'weight': n})
    return out


def run(X, kind, shape, ax, nb):
    shape, ax = tuple(shape), tup(ax)
    if kind in ('direct', 'ties'):
        var, sq = X.reals('var', shape, 0, 100), X.reals('sq', shape, 0, 100)
        f = X.fn('utils_ss', 'binned_spread_skill')
        call = lambda b: f(var, sq, b, ax)
    elif kind == 'ens':
        mid, d, o = X.reals('mid', shape, -10, 10), X.reals('d', shape, 0, 10), X.reals('o', shape, -10, 10)
        g = X.arr(shape + (2,), lambda *k: mid[k[:-1]] + (d[k[:-1]] if k[-1] else 0 - d[k[:-1]]))
        var, sq = X.arr(shape, lambda *k: d[k] * d[k]), X.arr(shape, lambda *k: (mid[k] - o[k]) * (mid[k] - o[k]))
        call = lambda b: X.cls('VerifyEnsemble')(g, o, ensemble_axis=-1, avg_axis=ax).binned_spread_skill(nbins=b)
    else:
        mu, sg, o = X.reals('mu', shape, -10, 10), X.reals('sg', shape, 0.1, 10), X.reals('o', shape, -10, 10)
        var, sq = X.arr(shape, lambda *k: sg[k] * sg[k]), X.arr(shape, lambda *k: (mu[k] - o[k]) * (mu[k] - o[k]))
        call = lambda b: X.cls('VerifyProbGaussian')({'mu': mu, 'sigma': sg}, o, avg_axis=ax).binned_spread_skill(nbins=b)
        d = sg
    n = len(next(cs for _, cs in X.slices(var, ax)))
    X.refuses(lambda: call(n + 1), 'more bins than samples are refused')
    key = var if kind in ('direct', 'ties') else d
    orders = {}
    for kk, cs in X.slices(key, ax):
        if kind == 'ties': continue
        for i in range(n):
            for j in range(i): X.assume(X.or_(cs[i] - cs[j] >= 0.001, cs[j] - cs[i] >= 0.001))
        # insertion sort, deciding every comparison
        order = []
        for i in range(n):
            p = len(order)
            while p > 0 and X.decide(cs[i] < cs[order[p - 1]]): p -= 1
            order.insert(p, i)
        orders[kk] = order
    spread, rmse = call(nb)
    keep = X.kept_shape(var, ax)
    X.prove(tuple(spread.shape) == keep + (nb,) and tuple(rmse.shape) == keep + (nb,), 'kept axes then bins')
    sizes = [n // nb + (1 if i < n % nb else 0) for i in range(nb)]
    for (kk, vs), (_, qs) in zip(X.slices(var, ax), X.slices(sq, ax)):
        sp, rm = X.cells(spread[kk] if kk else spread), X.cells(rmse[kk] if kk else rmse)
        if kind == 'ties':
            X.eq(X.sum([s * s * c for s, c in zip(sp, sizes)]) / n, X.mean(vs), 'bin spreads reproduce the mean variance')
            X.eq(X.sum([s * s * c for s, c in zip(rm, sizes)]) / n, X.mean(qs), 'bin errors reproduce the mean squared error')
            for i in range(nb - 1): X.prove(sp[i] <= sp[i + 1] + 1e-9, 'bin spreads do not decrease')
            continue
        at = 0
        for i in range(nb):
            g = orders[kk][at:at + sizes[i]]
            at += sizes[i]
            X.eq(sp[i] * sp[i], X.mean([vs[j] for j in g]), 'squared bin spread is the mean variance of its samples')
            X.eq(rm[i] * rm[i], X.mean([qs[j] for j in g]), 'squared bin error is the mean squared error of the same samples')
            X.prove(X.and_(sp[i] >= 0, rm[i] >= 0), 'roots are not negative')
        for i in range(nb - 1): X.prove(sp[i] <= sp[i + 1] + 1e-9, 'bin spreads do not decrease')
