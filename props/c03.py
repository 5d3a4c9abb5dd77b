"""C03: aggregating along axes never mixes kept positions."""
from .common import *
BOUNDS = 'arrays of rank 2-4 with 1-3 cells per axis, listed axis sets (positive, negative, mixed, unordered); values of all cells symbolic for correlation, CRPS and IOU, ' \
         'of selected cells for binned metrics (the others distinct constants)'
OUTSIDE = 'larger arrays'
AXES = {(2, 3): [(0,), (1,), (-1,), (-2,)],
        (3, 2): [(0,), (-1,)],
        (2, 3, 2): [(0,), (1,), (-1,), (0, 1), (1, 2), (0, 2), (-1, 0), (0, -1), (2, 0), (-1, -2), (1, -1), (-3,), (1, -3), (-2, 2)],
        (2, 1, 2, 2): [(0, 2), (-1, 0), (3, 1), (-4, 2), (0, 1, -1), (-1, -2, 0)]}


def configs(tier):
    out = []
    for kind in ('corr', 'crps', 'iou_determ', 'iou_prob', 'brier', 'decomp', 'rel', 'ss', 'boot', 'gcorr'):
        for sh, axs in AXES.items():
            if sh == (2, 1, 2, 2) and kind not in ('corr', 'rel', 'ss', 'crps', 'decomp') and tier == 'quick': continue
            for ax in axs:
                if tier == 'quick' and kind == 'gcorr' and ax not in ((-1,), (0, 1)): continue
                out.append({'name': '%s-%s-%s' % (kind, name(sh), axname(ax)), 'params': {'kind': kind, 'shape': list(sh), 'ax': list(ax), 'ns': 1 if tier == 'quick' else 3}})
    return out


def mixed(X, name, shape, lo, hi, nsym, base):
    """Array whose first nsym cells (spread over the array) are symbolic and whose other cells are distinct constants."""
    n = 1
    for s in shape: n *= s
    sym = X.reals(name, (nsym,), lo, hi)
    at = {(7 * i + 1) % n if n > 7 else i: i for i in range(nsym)}
    vals = [sym[at[i]] if i in at else base[(i * 5 + len(name)) % len(base)] for i in range(n)]
    return X.array(vals, shape)


def run(X, kind, shape, ax, ns):
    shape, ax = tuple(shape), tuple(ax)
    n = 2
    if kind in ('corr', 'iou_determ', 'gcorr'):
        if kind == 'iou_determ' or len(shape) == 4:
            base = [0.5, 2.25, 1.75, -1, 3.5, 1.25, 2, 0.25, 5]
            f, o = mixed(X, 'f', shape, -100, 100, 3, base), mixed(X, 'o', shape, -100, 100, 3, base[::-1])
        else: f, o = X.reals('f', shape, -100, 100), X.reals('o', shape, -100, 100)
        if kind == 'gcorr':
            mk = lambda g, p, **k: X.cls('VerifyProbGaussian')({'mu': g, 'sigma': X.np.ones(g.shape)}, p, **k)
        else: mk = lambda g, p, **k: X.cls('VerifyDeterm')(g, p, **k)
        if 'corr' in kind:
            for (kk, fs), (_, os_) in zip(X.slices(f, ax), X.slices(o, ax)):
                X.assume(X.or_(fs[0] - fs[1] >= 0.1, fs[1] - fs[0] >= 0.1))
                X.assume(X.or_(os_[0] - os_[1] >= 0.1, os_[1] - os_[0] >= 0.1))
            call = lambda v: v.corr()
        else: call = lambda v: v.iou_determ(over=1.5)
    elif kind == 'crps':
        f, o = X.reals('f', shape + (n,), -100, 100), X.reals('o', shape, -100, 100)
        mk = lambda g, p, **k: X.cls('VerifyEnsemble')(g, p, ensemble_axis=-1, **k)
        call = lambda v: v.crps()
    elif kind == 'boot':
        # bootstrap of constant slices: every resample mean is the slice's constant
        keep = X.kept_shape(X.np.zeros(shape), ax)
        c = X.reals('c', keep if keep else (1,), -100, 100)
        axs = {a % len(shape) for a in ax}
        def cell(*k):
            kk = tuple(v for i, v in enumerate(k) if i not in axs)
            return c[kk] if kk else c[0]
        f = X.arr(shape, cell)
        o = X.np.zeros(shape)
        X.setenv(boot_repeats=2)
        got = X.cls('VerifyDeterm')(f, o, avg_axis=ax, boot_samples=2).error()
        X.prove(got.shape == (3,) + keep, 'bootstrap result has [lower, mean, upper] then the kept axes')
        for i in range(3): X.eq(got[i], c if keep else c[0], 'bootstrap of constant slices')
        return
    else:
        base = [0.03, 0.97, 0.31, 0.64, 0.55, 0.12, 0.88, 0.46, 0.22, 0.76, 0.41, 0.69, 0.07]
        if kind == 'ss':
            # member values a and a + 2 d: mean a + d, variance d^2
            a = mixed(X, 'a', shape, 0, 1, 2, base)
            d = mixed(X, 'dd', shape, 2, 3, 1, [b * 2 for b in base])
            f = X.arr(shape + (2,), lambda *k: a[k[:-1]] + (2 * d[k[:-1]] if k[-1] else 0))
            o = mixed(X, 'o', shape, 0, 1, 1, base[::-1])
            mk = lambda g, p, **k: X.cls('VerifyEnsemble')(g, p, ensemble_axis=-1, **k)
            call = lambda v: v.binned_spread_skill(nbins=2)
            for kk, ds in X.slices(d, ax):
                if len(ds) < 2: return
                for i in range(len(ds)):
                    for j in range(i): X.assume(X.abs(ds[i] - ds[j]) >= 0.01)
        else:
            # one, two or three of three members at or below the threshold
            f1 = mixed(X, 'f', shape, 0, 1, ns, base)
            f = X.arr(shape + (3,), lambda *k: f1[k[:-1]] + 0.25 * k[-1])
            o = mixed(X, 'o', shape, 0, 1, min(ns, 2), base[::-1])
            mk = lambda g, p, **k: X.cls('VerifyEnsemble')(g, p, ensemble_axis=-1, **k)
            call = {'iou_prob': lambda v: v.iou_prob(over=(0.5, 0.4), below=(None, None)), 'brier': lambda v: v.brier(below=0.5),
                    'decomp': lambda v: v.brier_decomp(over=0.5), 'rel': lambda v: v.reliability(nbins=4, over=0.5)}[kind]
    got = call(mk(X.lay(f), X.lay(o), avg_axis=ax))
    keep = X.kept_shape(o, ax)
    # a second way round: slice first, verify all of the slice
    for kk in X.np.ndindex(*keep):
        fs = sub(X, f, [a % len(shape) for a in ax] + ([len(shape)] if f.ndim > len(shape) else []), kk)
        want = call(mk(fs, sub(X, o, ax, kk)))
        if isinstance(got, (tuple, list)):
            X.prove(len(got) == len(want), 'same number of results')
            for g, w in zip(got, want):
                if hasattr(w, 'to_numpy'): w = X.array(w.to_numpy())
                g = X.at(g, kk) if kk else g
                if hasattr(g, 'to_numpy'): g = X.array(g.to_numpy())
                X.eq(X.array(X.cells(g)), X.array(X.cells(w)), '%s at a kept position' % kind)
        else:
            X.prove(tuple(X.np.shape(got)) == keep, 'kept axes in their order')
            X.eq(X.at(got, kk), X.scalar(want), '%s at a kept position' % kind)
