"""C31: kernel-density ensemble probabilities are valid probabilities."""
from .common import *
BOUNDS = '2-3 members in [-20, 20], 1-2 cells of rank 1-2, thresholds in [-30, 30] (scalar or per cell), 3 integration points, bandwidths 0.5 and 2, spread multipliers 1 and 5; member axis first or last; one and two workers'
OUTSIDE = 'more members or integration points, other kernels; how closely the numerical integral approximates the density\'s'
ASSUMES = ['sklearn.neighbors.KernelDensity with the Gaussian kernel returns the logarithm of its mean of Gaussian densities']


def configs(tier):
    out = []
    for api in ('verifier', 'function', 'sharpness'):
        for sh in ((1,), (2,)) if tier == 'quick' else ((1,), (2,), (1, 2), (2, 2)):
            for first in (True, False):
                for thr in ('scalar', 'array'):
                    for workers in (1, 2):
                        if tier == 'quick' and (api == 'sharpness' and (thr == 'array' or workers == 2)): continue
                        out.append({'name': '%s-%s-%s-%s-%d' % (api, name(sh), 'first' if first else 'last', thr, workers),
                                    'params': {'api': api, 'shape': list(sh), 'first': first, 'thr': thr, 'workers': workers, 'n': 2 if tier == 'quick' or sh != (1,) else 3}})
    for first in (True, False):
        for workers in (1, 2):
            for thr in ('scalar', 'array'):
                if tier == 'quick' and (workers == 1 or first == (thr == 'array')): continue
                out.append({'name': 'order-%s-%s-%d' % ('first' if first else 'last', thr, workers), 'params': {'api': 'order', 'shape': [2, 2], 'first': first, 'thr': thr, 'workers': workers, 'n': 2}})
    for sh in ((2,),) if tier == 'quick' else ((2,), (3,)):
        for workers in (1, 2):
            out.append({'name': 'order-three-%s-%d' % (name(sh), workers), 'params': {'api': 'order', 'shape': list(sh), 'first': False, 'thr': 'scalar', 'workers': workers, 'n': 3}})
            # neighbouring cells that agree in their extremes and differ in between
            out.append({'name': 'order-ends-%s-%d' % (name(sh), workers), 'params': {'api': 'order', 'shape': list(sh), 'first': False, 'thr': 'ends', 'workers': workers, 'n': 3}})
    return out


def run(X, api, shape, first, thr, workers, n):
    shape = tuple(shape)
    X.setenv(ens_to_prob_method='kde', kde_bandwidth='0.5' if first else '2', kde_samples=3, kde_multiply_spread=5 if first else 1, tqdm_workers=workers)
    f = X.reals('f', ((n,) + shape) if first else (shape + (n,)), -20, 20)
    if thr == 'ends':
        x = X.reals('x', shape, -1, 2)
        f, thr = X.arr(shape + (n,), lambda *k: (-1., x[k[:-1]], 2.)[k[-1]]), 'scalar'
    o = X.np.zeros(shape)
    ax = 0 if first else -1
    t = X.real('t', -30, 30) if thr == 'scalar' else X.reals('t', shape, -30, 30)
    at = lambda k: t if thr == 'scalar' else t[k]
    etp = X.fn('utils_verify', 'ens_to_prob')
    # the member axis of the function is a position counted from the front
    pos = 0 if first else len(shape)
    V = X.cls('VerifyEnsemble')
    if api == 'function': call = lambda f, t, s, **k: etp(f, 0 if first else len(s), **k)
    elif api == 'verifier': call = lambda f, t, s, **k: V(f, X.np.zeros(s), ensemble_axis=ax).cdf(**k)
    else: call = lambda f, t, s, **k: V(f, X.np.zeros(s), ensemble_axis=ax).sharpness(**k)
    if api == 'order':
        # every cell of a two-dimensional field gets the probability of its own members and threshold
        # (each cell alone is asked about after an unrelated one: what was asked before is of no consequence)
        def alone(*k):
            etp(X.np.array([7.] * (n - 1) + [9. + sum(k)]).reshape((n, 1) if first else (1, n)), 0 if first else 1, below=8.)
            return X.scalar(etp(X.array(members(f, k, n, first), (n, 1) if first else (1, n)), 0 if first else 1, below=at(k)))
        X.eq(X.array(X.cells(V(f, o, ensemble_axis=ax).cdf(below=t)), shape), X.arr(shape, alone), 'each cell keeps its position')
        return
    below, over = call(f, t, shape, below=t), call(f, t, shape, over=t)
    X.prove(tuple(X.np.shape(below)) == shape and tuple(X.np.shape(over)) == shape, 'one probability per cell')
    for k in X.np.ndindex(*shape):
        X.prove(X.and_(X.not_(X.isnan(below[k])), X.and_(below[k] >= 0, below[k] <= 1)), 'in [0, 1]')
        X.prove(X.and_(over[k] >= 0, over[k] <= 1), 'exceedance in [0, 1]')
        X.eq(over[k], 1 - below[k], 'complement')
        # the cell alone
        one = X.array(members(f, k, n, first), ((n, 1) if first else (1, n)))
        tk = at(k) if thr == 'scalar' else X.array([at(k)])
        X.eq(X.scalar(call(one, tk, (1,), below=tk)), below[k], 'each cell uses its own members and threshold only')
