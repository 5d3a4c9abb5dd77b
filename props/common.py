"""Shared by the harnesses."""
import numpy as np


def tup(ax): return tuple(ax) if isinstance(ax, list) else ax


def name(sh): return 'x'.join(map(str, sh)) or 'scalar'


def axname(ax): return 'all' if ax is None else str(ax).replace(' ', '')


def members(f, k, n, first): return [f[(m,) + tuple(k)] if first else f[tuple(k) + (m,)] for m in range(n)]


def first_of(X, f, shape, n):
    """Member axis moved from last to first."""
    return X.arr((n,) + tuple(shape), lambda m, *k: f[tuple(k) + (m,)])


def det(X, shape, lo=-100, hi=100, **kw):
    f, o = X.reals('f', shape, lo, hi), X.reals('o', shape, lo, hi)
    return f, o, (lambda **k: X.cls('VerifyDeterm')(f, o, **dict(kw, **k)))


def gauss(X, f, o, **k): return X.cls('VerifyProbGaussian')(f, o, **k)


def flat(X, r):
    """Any metric result as a list of arrays."""
    if isinstance(r, (tuple, list)):
        out = []
        for x in r: out += flat(X, x)
        return out
    if hasattr(r, 'to_numpy'): return [X.array(r.index.to_numpy()), X.array(r.to_numpy())]
    if isinstance(r, np.ndarray) and getattr(r, 'dtype', None) == object and r.size and r.ndim:
        cells = [x for x in r.view(np.ndarray).ravel()]
        if all(isinstance(x, np.ndarray) and x.ndim for x in cells): return flat(X, cells)
    return [r]


def same(X, a, b, label):
    a, b = flat(X, a), flat(X, b)
    X.prove(len(a) == len(b), label + ': same number of results')
    for x, y in zip(a, b): X.eq(x, y, label)


def sub(X, a, axes, kk):
    """Slice of an array at kept position kk (pooled axes in original order)."""
    nd = a.ndim
    ax = {x % nd for x in ((axes,) if isinstance(axes, int) else axes)} if axes is not None else set(range(nd))
    it = iter(kk)
    return a[tuple(slice(None) if i in ax else next(it) for i in range(nd))]
