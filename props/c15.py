"""C15: bootstrap intervals are honest for every resample drawn."""
import itertools
from .common import *
BOUNDS = 'slices of 2-3 samples (4 in two bins), resamples of 2-4 (1-3 for averages), 1-3 repeats, every random draw; symbolic values for averages, reliability and spread-skill, fixed values for correlation and Brier decomposition; confidences 0.5, 0.8, 0.95; listed kept axes'
OUTSIDE = 'larger slices and resamples, more repeats'
KINDS = ('error', 'sq_error', 'crps', 'corr', 'decomp', 'rel', 'ss')


def configs(tier):
    out = []
    add = lambda nm, **p: out.append({'name': nm, 'params': p, 'weight': p['reps']})
    for kind in KINDS:
        for sh, ax in (((2,), None), ((2, 2), [0]), ((2, 2), [-1]), ((2, 1, 2), [0])) + ((((3,), None), ((3, 2), [0])) if tier != 'quick' else ()):
            if kind == 'crps' and tier == 'quick' and len(sh) > 1: continue
            # statistics of one resample
            for size in (2, 3) if kind in ('error', 'ss', 'rel') and (sh == (2,) or tier != 'quick') else (2,):
                if kind in ('corr', 'decomp') and size == 2: size = 3
                add('stat-%s-%s-%s-%d' % (kind, name(sh), axname(ax), size), kind=kind, shape=list(sh), ax=ax, size=size, reps=1, c=0.95, what='stat')
            # interval from the replicates
            for reps, c in ((2, 0.5), (3, 0.8), (2, 0.95)):
                if tier == 'quick' and (reps == 3 and sh != (2,) or c == 0.95 and len(sh) < 3 and kind != 'error'): continue
                if reps == 3 and kind in ('corr', 'decomp', 'rel'): continue
                add('ci-%s-%s-%s-%d-%s' % (kind, name(sh), axname(ax), reps, c), kind=kind, shape=list(sh), ax=ax, size=3 if kind == 'corr' else 1 if kind == 'decomp' and len(sh) > 1 and tier == 'quick' else 2, reps=reps, c=c, what='ci')
    # resamples larger than the slice
    for kind in ('corr', 'rel') if tier == 'quick' else ('error', 'corr', 'decomp', 'rel'): add('stat-%s-3-all-4' % kind, kind=kind, shape=[3], ax=None, size=4, reps=1, c=0.95, what='stat')
    # every bin draws from its own samples
    for kind in ('rel', 'ss'):
        for sh, ax in (((4,), None), ((4, 2), [0])) if tier != 'quick' else (((4,), None),):
            for size in (2, 3): add('bins-%s-%s-%d' % (kind, name(sh), size), kind=kind, shape=list(sh), ax=ax, size=size, reps=1, c=0.95, what='bins')
    for kind in KINDS:
        if kind == 'crps': continue
        add('reach-%s' % kind, kind=kind, shape=[2], ax=None, size=2 if kind != 'corr' else 3, reps=1, c=0.95, what='reach')
    return out


def data(X, kind, shape, ax, fixed):
    """(call(boot_samples), per-slice function resample -> list of statistics, slices of sample ids)."""
    cells = list(X.np.ndindex(*shape))
    num = {k: i for i, k in enumerate(cells)}
    idx = X.arr(shape, lambda *k: num[k])
    C1 = [1.0, 4.0, 2.5, 7.0, 5.5, 3.25]
    if kind in ('error', 'sq_error'):
        f = X.arr(shape, lambda *k: C1[num[k]]) if fixed else X.reals('f', shape, -100, 100)
        o = X.np.zeros(shape) if fixed else X.reals('o', shape, -100, 100)
        mk = lambda b: getattr(X.cls('VerifyDeterm')(f, o, avg_axis=ax, boot_samples=b), kind)()
        val = {i: (f[k] - o[k]) if kind == 'error' else (f[k] - o[k]) * (f[k] - o[k]) for k, i in num.items()}
        return mk, (lambda ii: [X.mean([val[i] for i in ii])]), idx, 'mean'
    if kind == 'crps':
        f = X.reals('f', (2,) + shape, -100, 100)
        o = X.reals('o', shape, -100, 100)
        mk = lambda b: X.cls('VerifyEnsemble')(f, o, ensemble_axis=0, avg_axis=ax, boot_samples=b).crps()
        def cr(k):
            a, b = f[(0,) + k], f[(1,) + k]
            return (X.abs(a - o[k]) + X.abs(b - o[k])) / 2.0 - X.abs(a - b) / 4.0
        val = {i: cr(k) for k, i in num.items()}
        return mk, (lambda ii: [X.mean([val[i] for i in ii])]), idx, 'mean'
    if kind == 'corr':
        # fixed values: correlations of every resample are known numbers
        D1 = [3.0, 1.0, 2.0, 6.0, 5.0, 4.5]
        f, o = X.arr(shape, lambda *k: C1[num[k]]), X.arr(shape, lambda *k: D1[num[k]])
        mk = lambda b: X.cls('VerifyDeterm')(f, o, avg_axis=ax, boot_samples=b).corr()
        import numpy as np
        def st(ii):
            with np.errstate(all='ignore'):
                a, b = np.array([C1[i] for i in ii]), np.array([D1[i] for i in ii])
                return [float(np.corrcoef(a, b)[0, 1]) if len(set(ii)) > 1 else float('nan')]
        return mk, st, idx, 'mean'
    if kind == 'decomp':
        from .c11 import decomp
        P = [0.12, 0.88, 0.37, 0.63, 0.22, 0.91]
        O = [0.0, 1.0, 1.0, 0.0, 1.0, 0.0]
        f, o = X.arr(shape, lambda *k: P[num[k]]), X.arr(shape, lambda *k: O[num[k]])
        bd = X.fn('utils_special_boot', 'brier_decomp')
        mk = lambda b: bd(f, o, ax, n_samples=b)
        def st(ii):
            r = decomp(X, [P[i] for i in ii], [O[i] for i in ii], [int(P[i] * 20) for i in ii])
            return list(r[:3])
        return mk, st, idx, 'decomp'
    if kind == 'rel':
        # every sample of a slice in the upper of two bins
        p = X.arr(shape, lambda *k: 0.6 + 0.05 * num[k]) if fixed else X.reals('p', shape, 0.6, 1)
        E = [0.0, 1.0, 1.0, 0.0, 0.0, 1.0]
        o = X.arr(shape, lambda *k: E[num[k]])
        v = lambda b: X.cls('VerifyProbGammaHurdle')({'pop': X.arr(shape, lambda *k: 1 - p[k]), 'mu': X.np.ones(shape), 'sigma': X.np.ones(shape)},
                                                     X.arr(shape, lambda *k: -E[num[k]]), avg_axis=ax, boot_samples=b).reliability(nbins=2, below=0.0)
        return v, (lambda ii: [X.mean([p[cells[i]] for i in ii]), X.mean([E[i] for i in ii])]), idx, 'rel'
    var = X.arr(shape, lambda *k: C1[num[k]]) if fixed else X.reals('var', shape, 0, 100)
    sq = X.arr(shape, lambda *k: C1[num[k]] * 2 + 1) if fixed else X.reals('sq', shape, 0, 100)
    f = X.fn('utils_ss', 'binned_spread_skill')
    mk = lambda b: f(var, sq, 1, ax, boot_samples=b)
    return mk, (lambda ii: [X.mean([var[cells[i]] for i in ii]), X.mean([sq[cells[i]] for i in ii])]), idx, 'ss'


def triples(X, kind, form, got, kk, keep):
    """Per statistic [lower, mean, upper] of the kept position."""
    if form == 'mean': return [[X.at(got[j], kk) for j in range(3)]]
    if form == 'decomp': return [[X.at(g[j], kk) for j in range(3)] for g in got]
    if form == 'rel':
        a, b = [(g[kk] if keep else g) for g in got[:2]]
        X.prove(tuple(X.np.shape(a)) == (1, 3) and tuple(X.np.shape(b)) == (1, 3), 'one interval per populated bin')
        return [[a[0, j] for j in range(3)], [b[0, j] for j in range(3)]]
    out = []
    for g in got:
        a = g[kk] if keep else g
        X.prove(tuple(X.np.shape(a)) == (1, 3), 'one interval per bin')
        out.append([a[0, j] * a[0, j] for j in range(3)])      # roots are reported
    return out


def bins(X, kind, shape, ax, size):
    """Two bins with two samples each in every slice."""
    near = lambda a, b: X.and_(a - b <= 1e-6 * (1 + X.abs(b)), b - a <= 1e-6 * (1 + X.abs(b)))
    low = lambda k: (k[0] + sum(k[1:])) % 2 == 0        # which samples of a slice are in the lower bin
    slices = [(k, [(i,) + k for i in range(4)]) for k in X.np.ndindex(*shape[1:])]
    if kind == 'rel':
        q = X.reals('q', shape, 0.05, 0.45)
        p = X.arr(shape, lambda *k: q[k] if low(k) else q[k] + 0.5)
        E = X.arr(shape, lambda *k: float((k[0] // 2 + sum(k[1:])) % 2))
        got = X.cls('VerifyProbGammaHurdle')({'pop': X.arr(shape, lambda *k: 1 - p[k]), 'mu': X.np.ones(shape), 'sigma': X.np.ones(shape)},
                                             X.arr(shape, lambda *k: -E[k]), avg_axis=ax, boot_samples=size).reliability(nbins=2, below=0.0)
        a, b = p, E
    else:
        q = X.reals('var', shape, 1, 9)
        a = X.arr(shape, lambda *k: q[k] if low(k) else q[k] + 20)
        b = X.reals('sq', shape, 0, 100)
        got = X.fn('utils_ss', 'binned_spread_skill')(a, b, 2, ax, boot_samples=size)
    for kk, ids in slices:
        g = [x[kk] if kk else x for x in got[:2]]
        X.prove(all(tuple(X.np.shape(x)) == (2, 3) for x in g), 'one interval per bin')
        for i in range(2):
            own = [k for k in ids if low(k) == (i == 0)]
            t = [x[i, 1] * (x[i, 1] if kind == 'ss' else 1.0) for x in g]
            X.prove(X.anyof([X.and_(near(t[0], X.mean([a[k] for k in c])), near(t[1], X.mean([b[k] for k in c]))) for c in itertools.combinations_with_replacement(own, size)]),
                    'the statistic of some resample of this bin, of the requested size')


def run(X, kind, shape, ax, size, reps, c, what):
    shape, ax = tuple(shape), tup(ax)
    X.setenv(boot_repeats=reps, boot_confidence=c)
    if what == 'bins': return bins(X, kind, shape, ax, size)
    mk, stat, idx, form = data(X, kind, shape, ax, what == 'reach')
    keep = X.kept_shape(idx, ax)
    near = lambda a, b: X.and_(a - b <= 1e-6 * (1 + X.abs(b)), b - a <= 1e-6 * (1 + X.abs(b)))
    if what == 'reach':
        # resampling is with replacement: a resample may hold one sample only, and may hold different ones
        ids = [int(i) for i in X.cells(idx)]
        for combo in itertools.product(ids, repeat=size):
            st = stat(combo)
            if any(s != s for s in st): continue
            def once():
                X.rewind()
                return triples(X, kind, form, mk(size), (), keep)
            X.exists_draw(once, lambda t: X.allof([near(t[i][1], st[i]) for i in range(len(st))]), 'resample %s can occur' % (combo,))
        return
    if what == 'stat':
        X.rewind()
        got = mk(size)
        for kk, ii in X.slices(idx, ax):
            ts = triples(X, kind, form, got, kk, keep)
            for t in ts:
                if X.decide(X.isnan(t[0])):
                    X.prove(kind == 'corr', 'a statistic is missing')
                    continue
                X.eq(t[0], t[1], 'one replicate: lower is the mean')
                X.eq(t[2], t[1], 'one replicate: upper is the mean')
            ok = []
            for combo in itertools.combinations_with_replacement([int(i) for i in ii], size):
                st = stat(combo)
                if st[0] != st[0] if isinstance(st[0], float) else False: ok.append(X.isnan(ts[0][1])); continue
                ok.append(X.allof([X.and_(X.not_(X.isnan(t[1])), near(t[1], s)) for t, s in zip(ts, st)]))
            X.prove(X.anyof(ok), 'the statistic of some resample of this slice, of the requested size')
        return
    X.rewind()
    X.setenv(boot_confidence=1.0)
    ext = mk(size)
    X.rewind()
    X.setenv(boot_confidence=c)
    got = mk(size)
    for kk, ii in X.slices(idx, ax):
        for t, e in zip(triples(X, kind, form, got, kk, keep), triples(X, kind, form, ext, kk, keep)):
            lo, mid, hi = e
            if X.decide(X.or_(X.isnan(lo), X.isnan(mid))): continue
            X.prove(X.and_(lo <= mid + 1e-9 * (1 + X.abs(mid)), mid <= hi + 1e-9 * (1 + X.abs(mid))), 'mean between the extremes')
            if reps == 2: X.eq(mid, (lo + hi) / 2, 'the mean of the replicates')
            q = [(1 - c) / 2, (1 + c) / 2]
            srt = [lo, hi] if reps == 2 else [lo, 3 * mid - lo - hi, hi]
            want = []
            for p in q:
                at = p * (reps - 1)
                j = min(int(at), reps - 2)
                want.append(srt[j] + (at - j) * (srt[j + 1] - srt[j]))
            X.eq(t[1], mid, 'the mean does not depend on the confidence')
            X.eq(t[0], want[0], 'lower quantile of the replicates')
            X.eq(t[2], want[1], 'upper quantile of the replicates')
