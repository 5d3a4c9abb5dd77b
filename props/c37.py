"""C37: a change of units changes metrics only by its factor."""
from .meta import *
BOUNDS = '2 samples of rank 1 and 2x2 samples, 2 members; factors 1024 and 1/4096 (and any factor in [0.1, 10] for averaged errors and spread), any offset in [-100, 100]; any values and any threshold in [-20, 20]'
OUTSIDE = 'other factors for probabilities and scores; more samples; kernel-density probabilities (their bandwidth is in the units of the data)'
OFFSET = {'determ': METRICS['determ'], 'ens': METRICS['ens'], 'gauss': METRICS['gauss'], 'gamma': [m for m in METRICS['gamma'] if m not in ('crps',)]}
ANY = ('error', 'ab_error', 'sq_error', 'f_determ', 'spread', 'variance')


def configs(tier):
    out = []
    for kind, ms in METRICS.items():
        for m in ms:
            for what in ('factor', 'any', 'offset'):
                if what == 'any' and m not in ANY or m == 'decomp' and kind != 'ens' and tier == 'quick': continue
                if what == 'offset' and m not in OFFSET.get(kind, ()): continue
                if what == 'any' and kind == 'hurdle': continue
                for sh, ax in (((2,), None), ((2, 2), [0])):
                    if sh == (2, 2) and (m not in ('error', 'brier', 'crps', 'ss', 'corr', 'iou_prob') or what == 'any' or tier == 'quick' and kind not in ('determ', 'ens', 'gauss') or m == 'corr' and kind != 'determ'): continue
                    if sh == (2, 2) and (m == 'ss' or tier == 'quick' and m == 'iou_prob' and kind == 'gauss'): continue
                    out.append({'name': '%s-%s-%s-%s' % (what, kind, m, name(sh)), 'params': {'kind': kind, 'm': m, 'shape': list(sh), 'ax': ax, 'what': what}, 'weight': 2})
    return out


def run(X, kind, m, shape, ax, what):
    shape, ax = tuple(shape), tup(ax)
    d, o = inputs(X, kind, shape, 2, m)
    if m == 'corr': spread_out(X, d, o, ax)
    t = 2.5 if m in ('roc', 'rel', 'decomp') else X.real('t', *((-20, 20) if kind in ('determ', 'ens', 'gauss') else (0.5, 20)))
    a, b = 1.0, 0.0
    if what == 'factor': a = (1024.0, 1 / 4096.0)[X.choose(2, 'factor')]
    elif what == 'any': a = X.real('a', 0.1, 10)
    else: b = X.real('b', -100, 100)
    # decisions at a threshold are compared only where rounding could not change them
    if what == 'offset' or what == 'any':
        for c in X.cells(o) + X.cells(d.get('f', o)): X.apart(c, t)
    def change(k, x):
        if k not in SCALED: return x
        return X.arr(x.shape, lambda *i: a * x[i] + (b if k in VALUED else 0.0))
    e = {k: change(k, x) for k, x in d.items()}
    got = measure(X, verifier(X, kind, e, change('o', o), ax, factor=a), m, a * t + b)
    want = measure(X, verifier(X, kind, d, o, ax), m, t)
    g, w = flat(X, got), flat(X, want)
    X.prove(len(g) == len(w), 'same number of results')
    f = 1.0
    for _ in range(POWER.get(m, 0)): f = f * a
    shift = b if m in ('f_determ', 'members') else 0.0
    for x, y in zip(g, w):
        X.prove(tuple(X.np.shape(x)) == tuple(X.np.shape(y)), 'same shape')
        for u, v in zip(X.cells(x), X.cells(y)): X.eq(u, v * f + shift, '%s in other units' % m)
