"""C30: the reliability index is zero exactly for a flat rank histogram."""
from .common import *
import itertools
BOUNDS = 'histograms of 1-5 bins with any non-negative counts (real or whole numbers), any positive factor, every permutation of up to 4 bins'
OUTSIDE = 'more bins'


def configs(tier):
    out = []
    for n in (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8):
        for what in ('value', 'flat', 'scale', 'unit', 'counts'): out.append({'name': '%s-%d' % (what, n), 'params': {'n': n, 'what': what}})
        if 2 <= n <= 4: out.append({'name': 'perm-%d' % n, 'params': {'n': n, 'what': 'perm'}})
    return out


def run(X, n, what):
    ri = X.cls('Verify').reliability_index
    if what == 'counts':
        # counts as rank histograms give them: whole numbers
        h = X.array([X.choose(3 if n < 5 else 2, 'count') for _ in range(n)])
        X.assume(X.sum(X.cells(h)) > 0)
    else:
        h = X.reals('h', (n,), 0, 1000)
        tot = X.sum(X.cells(h))
        X.assume(tot >= 0.01)
        if what == 'unit':
            # already normalised
            h = X.arr((n,), lambda i: h[i] / tot)
    c = X.cells(h)
    t = X.sum(c)
    if what == 'flat':
        X.assume(X.allof([X.and_(x - c[0] == 0, True) for x in c]) if X.symbolic else True)
        if not X.symbolic: h = X.np.full((n,), float(c[0])); X.assume(c[0] > 0)
        X.eq(X.scalar(ri(h)), 0.0, 'zero for a flat histogram')
        return
    before = X.copy(h)
    r = X.scalar(ri(h))
    X.eq(h, before, 'the histogram is not changed')
    X.eq(r, X.sum([X.abs(x / t - 1.0 / n) for x in c]), 'summed absolute deviation from the uniform histogram')
    X.prove(X.and_(r >= -1e-9, r <= 2 + 1e-9), 'between 0 and 2')
    X.prove(X.implies(r <= 0, X.allof([X.abs(x - c[0]) <= 1e-6 * (1 + X.abs(c[0])) for x in c])), 'zero only for a flat histogram')
    if what == 'scale':
        k = X.real('k', 0.01, 100)
        X.eq(X.scalar(ri(X.arr((n,), lambda i: k * h[i]))), r, 'unchanged by rescaling')
    if what == 'perm':
        for q in itertools.permutations(range(n)): X.eq(X.scalar(ri(X.arr((n,), lambda i: h[q[i]]))), r, 'unchanged by permuting the bins')
