"""C13: the reliability diagram accounts for every sample in the right bin."""
from .common import *
BOUNDS = 'up to 4 samples per slice, 1-4 bins, any probabilities in [0, 1] (away from inner bin edges by 1e-6), every outcome pattern, slices populating different bins'
OUTSIDE = 'more samples and bins; probabilities exactly on an inner bin edge'
EDGE = 1e-6


def configs(tier):
    out = []
    cs = [((1,), None, 1), ((2,), None, 2), ((3,), None, 2), ((3,), None, 3), ((2,), None, 4), ((2, 2), [0], 2), ((2, 2), [-1], 2), ((1, 2, 2), [0, 1], 2), ((2, 1), [1], 3), ((2, 2), None, 2)]
    if tier != 'quick': cs += [((4,), None, 3), ((3, 2), [0], 2), ((2, 2), None, 4), ((3,), None, 5)]
    for sh, ax, nb in cs:
        for kind in ('direct', 'verifier'):
            if kind == 'verifier' and sh == (1,): continue
            out.append({'name': '%s-%s-%s-%d' % (kind, name(sh), axname(ax), nb), 'params': {'kind': kind, 'shape': list(sh), 'ax': ax, 'nb': nb}, 'weight': 2})
    out.append({'name': 'ens', 'params': {'kind': 'ens', 'shape': [3], 'ax': None, 'nb': 5}})
    return out


def run(X, kind, shape, ax, nb):
    shape, ax = tuple(shape), tup(ax)
    cells = list(X.np.ndindex(*shape))
    if kind == 'ens':
        o = X.reals('o', shape, 0, 1)
        t = 0.5
        pick = {k: X.choose(4, 'members') for k in cells}
        g = X.arr(shape + (3,), lambda *k: 0.0 if k[-1] < pick[k[:-1]] else 1.0)
        ps = {k: 1 - pick[k] / 3.0 for k in cells}
        got = X.cls('VerifyEnsemble')(g, o, ensemble_axis=-1, avg_axis=ax).reliability(nbins=nb, over=t)
        os_ = {k: 1.0 if X.decide(o[k] > t) else 0.0 for k in cells}
    else:
        p = X.reals('p', shape, 0, 1)
        for k in cells:
            for e in range(1, nb): X.assume(X.or_(p[k] - e / float(nb) >= EDGE, e / float(nb) - p[k] >= EDGE))
        ps = {k: p[k] for k in cells}
        os_ = {k: float(X.choose(2, 'event')) for k in cells}
        o = X.arr(shape, lambda *k: os_[k])
        if kind == 'direct': got = X.fn('utils_verify', 'reliability_diagram')(p, o > 0.5, nb, ax)
        else:
            # the probability of being at or below zero of a hurdle forecast is one minus pop
            v = X.cls('VerifyProbGammaHurdle')({'pop': X.arr(shape, lambda *k: 1 - p[k]), 'mu': X.np.ones(shape), 'sigma': X.np.ones(shape)},
                                               X.arr(shape, lambda *k: -os_[k]), avg_axis=ax)
            got = v.reliability(nbins=nb, below=0.0)
    X.prove(len(got) == 4, 'four results')
    idx = X.arr(shape, lambda *k: cells.index(k))
    keep = X.kept_shape(idx, ax)
    for kk, ii in X.slices(idx, ax):
        ks = [cells[int(i)] for i in ii]
        n = len(ks)
        pr, tr, pc, tc = [(g[kk] if keep else g) for g in got]
        pr, tr = X.cells(pr), X.cells(tr)
        pc, tc = [X.cells(c.to_numpy() if hasattr(c, 'to_numpy') else c) for c in (pc, tc)]
        bins = {}
        for k in ks:
            b = 0
            while b < nb - 1 and X.decide(ps[k] >= (b + 1) / float(nb)): b += 1
            bins.setdefault(b, []).append(k)
        X.prove(len(pr) == len(bins) and len(tr) == len(bins) and len(pc) == len(bins), 'one entry per populated bin')
        for i, b in enumerate(sorted(bins)):
            g = bins[b]
            X.eq(pr[i], X.mean([ps[k] for k in g]), 'mean probability of the bin')
            X.eq(tr[i], X.mean([os_[k] for k in g]), 'observed frequency of the bin')
            X.prove(pc[i] == len(g), 'samples in the bin')
            X.prove(X.and_(pr[i] >= b / float(nb) - EDGE, pr[i] <= (b + 1) / float(nb) + EDGE), 'mean inside its bin')
            X.prove(X.and_(tr[i] >= 0, tr[i] <= 1), 'frequency in [0, 1]')
        X.eq(X.sum([a * c for a, c in zip(pr, pc)]) / n, X.mean([ps[k] for k in ks]), 'weighted means reproduce the mean probability')
        X.eq(X.sum([a * c for a, c in zip(tr, pc)]) / n, X.mean([os_[k] for k in ks]), 'weighted frequencies reproduce the mean frequency')
        ev = [sum(1 for k in ks if os_[k] == z) for z in (0.0, 1.0)]
        X.prove(len(tc) == len([c for c in ev if c]) and all(a == b for a, b in zip(tc, [c for c in ev if c])), 'counts of non-events and events')
