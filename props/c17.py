"""C17: ROC curve and area match the ranking of events over non-events."""
from .common import *
BOUNDS = '2-4 pairs of rank 1-2 with both outcomes present, any probabilities in [0, 1] in any order with any ties (near ties down to 1.5e-8), any subset missing when NaN skipping is on'
OUTSIDE = 'more pairs; only one outcome present'
ASSUMES = ['sklearn.metrics.roc_curve and auc depend on the scores through their order and ties only (checked by re-running path inputs)']


def configs(tier):
    out = []
    for sh in ((2,), (3,), (2, 2), (3, 1)) if tier == 'quick' else ((2,), (3,), (4,), (2, 2), (5,)):
        for skip in (True, False):
            for kind in ('direct', 'hurdle', 'ens'):
                if kind == 'ens' and skip: continue
                if tier == 'quick' and (skip and sh == (2, 2) or len(sh) == 2 and kind == 'hurdle'): continue
                if sh == (2, 2) and kind == 'direct':
                    for e0 in (0, 1): out.append({'name': '%s-%s-%s-%d' % (kind, name(sh), 'skip' if skip else 'keep', e0), 'params': {'kind': kind, 'shape': list(sh), 'skip': skip, 'e0': e0}, 'weight': 4})
                    continue
                out.append({'name': '%s-%s-%s' % (kind, name(sh), 'skip' if skip else 'keep'), 'params': {'kind': kind, 'shape': list(sh), 'skip': skip}, 'weight': 3 if sh == (2, 2) else 1})
    # probabilities that nearly agree
    for kind in ('direct', 'hurdle'):
        for n in (2, 3): out.append({'name': '%s-%d-near' % (kind, n), 'params': {'kind': kind, 'shape': [n], 'skip': False, 'near': True}})
    return out


def run(X, kind, shape, skip, e0=None, near=False):
    shape = tuple(shape)
    cells = list(X.np.ndindex(*shape))
    X.setenv(skip_nan=skip)
    ev = {k: float(e0 if e0 is not None and k == cells[0] else X.choose(2, 'event')) for k in cells}
    o = X.arr(shape, lambda *k: ev[k])
    if kind in ('direct', 'hurdle'):
        p = X.reals('p', shape, 0, 1, nan=skip) if not near else X.arr(shape, lambda *k: 0.5 + X.integer('j%d' % k[0], 0, 3) * 2.0 ** -26)
        gone = {k: X.decide(X.isnan(p[k])) for k in cells}
        if not _both([ev[k] for k in cells if not gone[k]]): return
        if kind == 'direct': fpr, tpr, auc = X.fn('utils_verify', 'calculate_roc')(p, o > 0.5)
        else:
            v = X.cls('VerifyProbGammaHurdle')({'pop': X.arr(shape, lambda *k: 1 - p[k]), 'mu': X.np.ones(shape), 'sigma': X.np.ones(shape)}, X.arr(shape, lambda *k: -ev[k]))
            fpr, tpr, auc = v.roc(below=0.0)
        ps = {k: p[k] for k in cells}
    else:
        pick = {k: X.choose(3, 'members') for k in cells}
        if not _both(ev.values()): return
        g = X.arr(shape + (2,), lambda *k: 0.0 if k[-1] < pick[k[:-1]] else 1.0)
        fpr, tpr, auc = X.cls('VerifyEnsemble')(g, o, ensemble_axis=-1).roc(over=0.5)
        ps = {k: 1 - pick[k] / 2.0 for k in cells}
    ks = [k for k in cells if not X.decide(X.isnan(ps[k]))]
    for i, a in enumerate(ks):
        for b in ks[:i]:
            if not X.symbolic and not near and ps[a] != ps[b]: X.apart(ps[a], ps[b])
    pos, neg = [ps[k] for k in ks if ev[k]], [ps[k] for k in ks if not ev[k]]
    want = X.sum([X.ite(a > b, 1.0, X.ite(a == b, 0.5, 0.0)) for a in pos for b in neg]) / (len(pos) * len(neg))
    X.eq(X.scalar(auc), want, 'area is the probability of ranking an event above a non-event')
    fp, tp = X.cells(fpr), X.cells(tpr)
    X.prove(len(fp) == len(tp), 'as many hit rates as false alarm rates')
    X.prove(X.allof([fp[0] == 0, tp[0] == 0, fp[-1] == 1, tp[-1] == 1]), 'from (0, 0) to (1, 1)')
    for i in range(len(fp) - 1): X.prove(X.and_(fp[i] <= fp[i + 1] + 1e-9, tp[i] <= tp[i + 1] + 1e-9), 'never decreases')
    for x, y in zip(fp, tp):
        hits = [X.and_(x == 0, y == 0)]
        for t in pos + neg:
            hits.append(X.and_(X.abs(X.count([b >= t for b in neg]) / len(neg) - x) <= 1e-9, X.abs(X.count([a >= t for a in pos]) / len(pos) - y) <= 1e-9))
        X.prove(X.anyof(hits), 'every point belongs to a probability threshold')


def _both(xs):
    xs = list(xs)
    return any(x for x in xs) and any(not x for x in xs)
