"""C11: Brier decomposition is exact and consistently ordered."""
from .common import *
BOUNDS = 'up to 4 samples per slice, any probabilities inside four of the 20 bins (including exactly 0 and 1), every outcome pattern; slices along listed axes'
OUTSIDE = 'more samples; probabilities in the other bins at the same time; probabilities exactly on an inner bin edge'
EDGE = 1e-6


def configs(tier):
    out = []
    cs = [((3,), None), ((2,), None), ((1,), None), ((2, 2), [0]), ((2, 2), [-1]), ((2, 1), None), ((1, 2, 1), [1])]
    if tier != 'quick': cs += [((4,), None), ((2, 2), None), ((3, 2), [0])]
    for sh, ax in cs:
        out.append({'name': 'direct-%s-%s' % (name(sh), axname(ax)), 'params': {'kind': 'direct', 'shape': list(sh), 'ax': ax, 'fix': tier == 'quick' and len(sh) == 2 and sh[-1] == 2}, 'weight': 3})
    for sh, ax in (((3,), None), ((2, 2), [1])):
        for kind in ('ens', 'gauss', 'gamma', 'hurdle'):
            out.append({'name': '%s-%s-%s' % (kind, name(sh), axname(ax)), 'params': {'kind': kind, 'shape': list(sh), 'ax': ax}, 'weight': 2})
    for j in range(20): out.append({'name': 'bin-%d' % j, 'params': {'kind': 'bin', 'shape': [j], 'ax': None}})
    return out


def decomp(X, ps, os_, ids):
    """Reliability, resolution, uncertainty and the Brier score of the binned forecasts, from the bin of each sample."""
    n = len(ps)
    ob = X.mean(os_)
    rel = res = bs = 0.0
    for b in sorted(set(ids)):
        g = [i for i in range(n) if ids[i] == b]
        mp, mo = X.mean([ps[i] for i in g]), X.mean([os_[i] for i in g])
        rel = rel + len(g) * (mp - mo) * (mp - mo)
        res = res + len(g) * (mo - ob) * (mo - ob)
        for i in g: bs = bs + (mp - os_[i]) * (mp - os_[i])
    return rel / n, res / n, ob * (1 - ob), bs / n


def run(X, kind, shape, ax, fix=False):
    shape, ax = tuple(shape), tup(ax)
    bd = X.fn('utils_special_boot', 'brier_decomp')
    if kind == 'bin':
        # two samples: same bin exactly when both lie in the same twentieth
        j, shape = shape[0], (2,)
        lo, hi = j / 20.0, (j + 1) / 20.0
        a = X.real('a', lo if j == 0 else lo + EDGE, hi if j == 19 else hi - EDGE)
        b = X.real('b', 0, 1)
        for e in range(1, 20): X.assume(X.or_(b - e / 20.0 >= EDGE, e / 20.0 - b >= EDGE))
        where = X.choose(3, 'where')
        if where == 0: X.assume(X.and_(b >= lo, b <= hi))
        elif where == 1: X.assume(b < lo)
        else: X.assume(b > hi)
        p, o = X.array([a, b]), X.array([1.0, 0.0])
        rel, res, unc = bd(p, o)
        ids = [0, 0] if where == 0 else [0, 1]
        r = decomp(X, [a, b], [1.0, 0.0], ids)
        X.eq(X.scalar(rel), r[0], 'reliability')
        X.eq(X.scalar(res), r[1], 'resolution')
        X.eq(X.scalar(unc), r[2], 'uncertainty')
        return
    cells = list(X.np.ndindex(*shape))
    if kind == 'direct':
        bins = [0, 9, 19] if len(cells) < 4 or ax is None else [0, 19]
        ids, ps, os_ = {}, {}, {}
        for k in cells:
            b = bins[0 if fix and k == cells[0] else X.choose(len(bins), 'bin')]
            ids[k] = b
            ps[k] = X.real('p%s' % '_'.join(map(str, k)), b / 20.0 + (0 if b == 0 else EDGE), (b + 1) / 20.0 - (0 if b == 19 else EDGE))
            os_[k] = float(X.choose(2, 'event'))
        f, o = X.arr(shape, lambda *k: ps[k]), X.arr(shape, lambda *k: os_[k])
        if shape[-1] == 2: o = o > 0.5
        got = bd(f, o, ax)
    else:
        from . import c06
        if kind == 'ens':
            n = 3
            f = X.reals('f', (1,), -100, 100)
            t = 0.5
            pick = {k: X.choose(4, 'members') if len(cells) < 4 else 2 * X.choose(2, 'members') for k in cells}
            g = X.arr(shape + (n,), lambda *k: f[0] * 0 + (0.0 if k[-1] < pick[k[:-1]] else 1.0))
            o = X.arr(shape, lambda *k: float(X.choose(2, 'event')))
            v = X.cls('VerifyEnsemble')(g, o, ensemble_axis=-1, avg_axis=ax)
            ps = {k: 1 - pick[k] / 3.0 for k in cells}
            ids = {k: min(int(ps[k] * 20 + 1e-9), 19) for k in cells}
        else:
            # constant parameters: the code's own probabilities, symbolic observations
            mu = X.arr(shape, lambda *k: 0.4 + 0.3 * cells.index(k) if kind != 'gauss' else -1 + 0.9 * cells.index(k))
            p = {'mu': mu, 'sigma': X.np.ones(shape), 'shift': X.np.zeros(shape), 'unshifted_mu': mu, 'pop': X.np.ones(shape) * 0.75}
            p = {q: p[q] for q in {'gauss': ('mu', 'sigma'), 'gamma': ('mu', 'sigma', 'shift', 'unshifted_mu'), 'hurdle': ('pop', 'mu', 'sigma')}[kind]}
            o = X.reals('o', shape, -2, 2)
            t = 0.5
            v = c06.verifier(X, kind, p, o, avg_axis=ax)
            c = c06.verifier(X, kind, p, o).cdf(over=t)
            ps = {k: c[k] for k in cells}
            ids = {k: int(float(ps[k]) * 20) for k in cells}
        os_ = {k: 1.0 if X.decide(o[k] > t) else 0.0 for k in cells}
        got = v.brier_decomp(over=t)
        f = o
    X.prove(len(got) == 3, 'three components')
    ref = X.np.zeros(shape)
    idx = X.arr(shape, lambda *k: cells.index(k))
    for kk, ii in X.slices(idx, ax):
        ks = [cells[int(i)] for i in ii]
        r = decomp(X, [ps[k] for k in ks], [os_[k] for k in ks], [ids[k] for k in ks])
        rel, res, unc = [X.at(g, kk) for g in got]
        X.eq(rel, r[0], 'reliability')
        X.eq(res, r[1], 'resolution')
        X.eq(unc, r[2], 'uncertainty')
        X.eq(rel - res + unc, r[3], 'reliability - resolution + uncertainty is the Brier score of the binned forecasts')
        X.prove(rel >= -1e-9, 'reliability is not negative')
        X.prove(X.and_(res >= -1e-9, res <= unc + 1e-9), 'resolution between 0 and uncertainty')
        X.prove(unc <= 0.25 + 1e-9, 'uncertainty at most a quarter')
