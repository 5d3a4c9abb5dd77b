"""C36: metrics depend on the samples and members given, not on their order."""
import itertools
from .meta import *
BOUNDS = '2-3 samples of rank 1 and 2x2 samples, 3 members; rotations, swaps and reversals (all orders thorough); any values away from ties where ties are broken by order or at random'
OUTSIDE = 'more samples and members; sampled ensembles and resampling, where each sample has its own draw'
SKIP = ('members',)


def configs(tier):
    out = []
    for kind, ms in METRICS.items():
        for m in ms:
            if m in SKIP or m == 'decomp' and kind != 'ens' and tier == 'quick': continue
            heavy = m in ('decomp', 'rel', 'roc') and kind != 'ens'
            sh = [2] if heavy and tier == 'quick' or m == 'corr' else [3]
            out.append({'name': 'samples-%s-%s' % (kind, m), 'params': {'kind': kind, 'm': m, 'shape': sh, 'ax': None, 'what': 'samples', 'full': tier != 'quick'}, 'weight': 2})
            if m in PER_CELL or m in ('roc', 'rel'): continue
            if tier == 'quick' and (kind in ('gamma', 'tgamma', 'tgauss', 'hurdle') or m in ('ab_error', 'rmse', 'decomp')): continue
            for what in ('rows', 'kept'):
                out.append({'name': '%s-%s-%s' % (what, kind, m), 'params': {'kind': kind, 'm': m, 'shape': [2, 2], 'ax': [0], 'what': what, 'full': tier != 'quick'}, 'weight': 2})
    for m in METRICS['ens']:
        out.append({'name': 'members-%s' % m, 'params': {'kind': 'ens', 'm': m, 'shape': [2], 'ax': None, 'what': 'members', 'full': tier != 'quick'}, 'weight': 2})
    return out


def orders(X, n, full):
    if full or n < 3: ps = list(itertools.permutations(range(n)))[1:]
    else: ps = [(1, 2, 0), (1, 0, 2), (2, 1, 0)]
    return ps[X.choose(len(ps), 'order')]


def run(X, kind, m, shape, ax, what, full):
    shape, ax = tuple(shape), tup(ax)
    t = 2.5
    n = 3 if what == 'members' else 2
    d, o = inputs(X, kind, shape, n, m)
    if m == 'corr': spread_out(X, d, o, ax)
    if what == 'members':
        p = [orders(X, n, full) for _ in range(shape[0])] if full else [(1, 2, 0), (2, 1, 0)]
        f = d['f']
        e = {'f': X.arr(shape + (n,), lambda *k: f[k[:-1] + (p[k[0]][k[-1]],)])}
        a, b = measure(X, verifier(X, kind, d, o), m, t), measure(X, verifier(X, kind, e, o), m, t)
        same(X, b, a, '%s with the members in another order' % m)
        return
    axis = {'samples': 0, 'rows': 0, 'kept': 1}[what]
    p = orders(X, shape[axis], full)
    def move(x):
        return X.arr(x.shape, lambda *k: x[k[:axis] + (p[k[axis]],) + k[axis + 1:]])
    a = measure(X, verifier(X, kind, d, o, ax), m, t)
    b = measure(X, verifier(X, kind, {k: move(x) for k, x in d.items()}, move(o), ax), m, t)
    if what == 'kept' or m in PER_CELL:
        for g, h in zip(flat(X, a), flat(X, b)):
            X.prove(tuple(g.shape) == tuple(h.shape), 'same shape')
            for i in range(len(p)): X.eq(h[i], g[p[i]], '%s follows its position' % m)
        return
    same(X, b, a, '%s with the samples in another order' % m)
