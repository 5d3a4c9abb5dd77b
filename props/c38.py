"""C38: missing observations are left out of event scores, never counted as non-events."""
from .meta import *
BOUNDS = '2-3 samples of rank 1 and 2x2 samples, every placement of missing observations (quick reliability of 2x2 samples: one cell, a row or a column), 2 members; any other values and a symbolic threshold; Brier score, decomposition, reliability (2 bins), ROC, CRPS'
OUTSIDE = 'more samples; slices without any observation except that their results are missing or empty; ROC curves of one outcome only'
SCORES = {'ens': ('brier', 'decomp', 'rel', 'roc', 'crps'), 'gauss': ('brier', 'decomp', 'rel', 'roc', 'crps'), 'tgauss': ('brier', 'rel'), 'gamma': ('brier', 'rel', 'roc', 'crps'), 'hurdle': ('brier', 'rel', 'roc', 'crps')}


def configs(tier):
    out = []
    for kind, ms in SCORES.items():
        for m in ms:
            for sh, ax in (((3,), None), ((2, 2), [0]), ((2, 2), [-1])):
                if tier == 'quick' and (kind == 'gauss' and m == 'decomp' or kind in ('gamma', 'hurdle') and m == 'crps' and len(sh) == 2): continue
                if m == 'roc' and len(sh) == 2: continue
                if tier == 'quick' and m in ('decomp', 'rel') and (kind != 'ens' and (len(sh) == 2 or m == 'decomp') or kind == 'hurdle'): sh, ax = (2,), None
                if tier == 'quick' and ax == [-1] and kind != 'ens': continue
                for skip in (True, False):
                    if not skip and (m not in ('brier', 'decomp') or ax == [-1] or m == 'decomp' and len(sh) == 2): continue
                    c = {'name': '%s-%s-%s-%s-%s' % (kind, m, name(sh), axname(ax), 'skip' if skip else 'keep'), 'params': {'kind': kind, 'm': m, 'shape': list(sh), 'ax': ax, 'skip': skip, 'few': tier == 'quick' and m == 'rel' and len(sh) == 2}, 'weight': 2}
                    if c['name'] not in [x['name'] for x in out]: out.append(c)
    for m in ('crps', 'f_determ', 'variance'):
        for sh in ((2,), (3,)): out.append({'name': 'hurdle-%s-%s-range' % (m, name(sh)), 'params': {'kind': 'hurdle', 'm': m, 'shape': list(sh), 'ax': None, 'skip': True, 'auto': True}, 'weight': 2})
    return out


def own_range(X, m, shape):
    """Without a range given, integrations cover the observed values."""
    d, o = inputs(X, 'hurdle', shape, 2, m)
    X.setenv(skip_nan=True)
    there = [k for k in X.np.ndindex(*shape) if X.choose(2, 'missing') == 0]
    if not there: return
    p = X.arr(shape, lambda *k: o[k] if k in there else float('nan'))
    got = measure(X, verifier(X, 'hurdle', d, p, None, auto_range=True), m, 2.5)
    want = measure(X, verifier(X, 'hurdle', {q: X.array([x[k] for k in there], (len(there),)) for q, x in d.items()}, X.array([o[k] for k in there], (len(there),)), None, auto_range=True), m, 2.5)
    if m == 'crps': X.eq(got, want, 'CRPS of the observed cells')
    else:
        X.prove(tuple(got.shape) == shape, 'one value per cell')
        for i, k in enumerate(there): X.eq(got[k], want[i], '%s of an observed cell' % m)


def run(X, kind, m, shape, ax, skip, auto=False, few=False):
    if auto: return own_range(X, m, tuple(shape))
    shape, ax = tuple(shape), tup(ax)
    X.setenv(skip_nan=skip)
    d, o = inputs(X, kind, shape, 2, m)
    t = 2.5 if m in ('roc', 'rel', 'decomp', 'crps') else X.real('t', *((-20, 20) if kind in ('ens', 'gauss') else (0.5, 20)))
    if few:
        # one missing or a whole row or column
        h = X.choose(7, 'missing')
        there = {k: h == 0 or h != 1 + 2 * k[0] + k[1] and not (h == 5 and k[0] == 0) and not (h == 6 and k[1] == 1) for k in X.np.ndindex(*shape)}
    else: there = {k: X.choose(2, 'missing') == 0 for k in X.np.ndindex(*shape)}
    p = X.arr(shape, lambda *k: o[k] if there[k] else float('nan'))
    if m == 'roc':
        ev = [X.decide(o[k] > t) for k in there if there[k]]
        if all(ev) or not any(ev): return
    v = verifier(X, kind, d, p, ax)
    got = measure(X, v, m, t)
    idx = X.arr(shape, lambda *k: list(there).index(k))
    cells = list(there)
    keep = X.kept_shape(idx, ax)
    for kk, ii in X.slices(idx, ax):
        ks = [cells[int(i)] for i in ii]
        left = [k for k in ks if there[k]]
        parts = [(g[kk] if keep else g) for g in (got if isinstance(got, tuple) else (got,))]
        parts = [X.array(g.to_numpy()) if hasattr(g, 'to_numpy') else g for g in parts]
        if not left or not skip and len(left) < len(ks):
            if m == 'rel': X.prove(all(len(X.cells(g)) == 0 for g in parts), 'nothing to report')
            else:
                for g in parts:
                    for c in X.cells(g): X.prove(X.isnan(c), 'missing observations make the %s missing' % m)
            continue
        e = {q: X.array([x[k + (i,)] for k in left for i in range(x.shape[-1])], (len(left), x.shape[-1])) if x.ndim > len(shape) else X.array([x[k] for k in left], (len(left),)) for q, x in d.items()}
        want = measure(X, verifier(X, kind, e, X.array([o[k] for k in left], (len(left),))), m, t)
        want = [X.array(w.to_numpy()) if hasattr(w, 'to_numpy') else w for w in (want if isinstance(want, tuple) else (want,))]
        X.prove(len(parts) == len(want), 'same number of results')
        for g, w in zip(parts, want): X.eq(X.array(X.cells(g)), X.array(X.cells(w)), '%s of the observed cells' % m)
