"""C05: ensemble probabilities are exact member fractions."""
from .common import *
BOUNDS = 'observations of rank 1-3 with up to 4 cells, 1-4 members, member axis first or last (positive or negative index), scalar or per-cell thresholds; any real values; 1 and 2 workers'
OUTSIDE = 'larger arrays'


def configs(tier):
    out = []
    for sh, n in (((1,), 4), ((2,), 3), ((3,), 1), ((2, 2), 2), ((1, 3), 2), ((2, 1, 2), 2)):
        for ax in ('last', 'first'):
            for thr in ('scalar', 'cell', 'int'):
                for w in (1, 2):
                    if tier == 'quick' and w == 2 and thr == 'int': continue
                    out.append({'name': '%s-%d-%s-%s-%dw' % (name(sh), n, ax, thr, w), 'params': {'shape': list(sh), 'n': n, 'ax': ax, 'thr': thr, 'workers': w}})
    return out


def run(X, shape, n, ax, thr, workers):
    shape = tuple(shape)
    nd = len(shape)
    X.setenv(tqdm_workers=workers)
    first = ax == 'first'
    f = X.reals('f', ((n,) + shape) if first else shape + (n,), -100, 100)
    o = X.reals('o', shape, -100, 100)
    if thr == 'scalar': t, t2 = X.real('t', -100, 100), X.real('t2', -100, 100)
    elif thr == 'int': t, t2 = 3, 4
    else: t, t2 = X.reals('t', shape, -100, 100), X.reals('t2', shape, -100, 100)
    at = lambda u, k: u[k] if thr == 'cell' else u
    want = X.arr(shape, lambda *k: X.count([m <= at(t, k) for m in members(f, k, n, first)]) / n)
    over = X.arr(shape, lambda *k: 1 - want[k])
    e2p = X.fn('utils_verify', 'ens_to_prob')
    for a in ((0, -nd - 1) if first else (-1, nd)):
        v = X.cls('VerifyEnsemble')(f, o, ensemble_axis=a)
        b = v.cdf(below=t)
        X.eq(b, want, 'probability below is the fraction of members not above the threshold')
        X.eq(v.cdf(over=t), over, 'probability above is its complement')
        X.eq(v.sharpness(below=t), want, 'sharpness below')
        X.eq(v.sharpness(over=t), over, 'sharpness above')
        X.eq(e2p(f, a, below=t), want, 'ens_to_prob below')
        X.eq(e2p(f, a, over=t), over, 'ens_to_prob above')
        b2 = v.cdf(below=t2)
        for k in X.np.ndindex(*shape):
            X.prove(X.and_(b[k] >= 0, b[k] <= 1), 'probability in [0, 1]')
            X.prove(X.implies(at(t, k) <= at(t2, k), b[k] <= b2[k]), 'probability does not decrease with the threshold')
    v = X.cls('VerifyEnsemble')(f, o, ensemble_axis=0 if first else -1)
    X.refuses(lambda: v.cdf(), 'a threshold is required')
    X.refuses(lambda: v.cdf(over=t, below=t), 'only one threshold')
    X.refuses(lambda: e2p(f, 0 if first else -1), 'a threshold is required by ens_to_prob')
