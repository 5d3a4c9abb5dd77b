"""C08: observation ranks are correct for every tie-break draw."""
from .common import *
BOUNDS = 'up to 3 members (4 thorough), 1-4 cells of rank 1-3, any real values including ties, every outcome of the random tie-breaking; member axis first or last'
OUTSIDE = 'more members, larger arrays, the random generator itself (every value of its range is possible)'


def configs(tier):
    out = []
    sizes = [(1, (2,)), (2, (1,)), (3, (1,)), (2, (2,)), (2, (1, 2)), (1, (2, 2)), (1, (1, 2, 1))]
    if tier != 'quick': sizes += [(4, (1,)), (2, (3,)), (3, (2,)), (2, (2, 1))]
    for n, sh in sizes:
        for first in (True, False):
            for api in ('verifier', 'function'):
                if tier == 'quick' and api == 'function' and len(sh) > 1: continue
                out.append({'name': 'range-%d-%s-%s-%s' % (n, name(sh), 'first' if first else 'last', api),
                            'params': {'what': 'range', 'n': n, 'shape': list(sh), 'first': first, 'api': api}, 'weight': n})
    for n in (1, 2, 3):
        for sh in ((1,), (2,), (1, 2)):
            out.append({'name': 'reach-%d-%s' % (n, name(sh)), 'params': {'what': 'reach', 'n': n, 'shape': list(sh), 'first': False, 'api': 'verifier'}})
    return out


def run(X, what, n, shape, first, api):
    shape = tuple(shape)
    if what == 'range':
        f = X.reals('f', (n,) + shape if first else shape + (n,), -100, 100)
        o = X.reals('o', shape, -100, 100)
        ax = 0 if first else -1
        if api == 'verifier': got = X.cls('VerifyEnsemble')(f, o, ensemble_axis=ax).rank_hist()
        else: got = X.fn('utils_verify', 'rank_histogram')(f, o, ax)
        X.prove(tuple(got.shape) == shape, 'one rank per observation')
        for k in X.np.ndindex(*shape):
            ms = members(f, k, n, first)
            lo, hi = 1 + X.count([m < o[k] for m in ms]), 1 + X.count([m <= o[k] for m in ms])
            X.prove(X.and_(got[k] >= lo, got[k] <= hi), 'rank between the members below and the members not above')
            r = got[k]
            X.prove(X.anyof([r == j for j in range(1, n + 2)]), 'rank is an integer from 1 to members + 1')
        return
    # every admissible rank of every order type can occur
    k0 = tuple(X.choose(s, 'cell') for s in shape)
    kinds = [X.choose(3, 'member') - 1.0 for _ in range(n)]
    rest = X.choose(2, 'others')       # the other cells: ties or none
    vals = {}
    for k in X.np.ndindex(*shape):
        for m in range(n): vals[k + (m,)] = kinds[m] if k == k0 else (0.0 if rest else -1.0 - m)
    f = X.arr(shape + (n,), lambda *k: vals[k])
    o = X.arr(shape, lambda *k: 0.0)
    below, notabove = sum(1 for x in kinds if x < 0), sum(1 for x in kinds if x <= 0)
    for r in range(1 + below, 2 + notabove):
        def once():
            X.rewind()
            return X.cls('VerifyEnsemble')(f, o, ensemble_axis=-1).rank_hist()
        X.exists_draw(once, lambda g: g[k0] == r, 'every rank of the range can occur')
