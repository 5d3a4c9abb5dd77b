"""C04: ensemble axis position and configuration setters do what they say."""
from .common import *
BOUNDS = 'observations of rank 1-2 (rank 3 thorough) with 1-3 cells per axis, 2-3 members; every way of giving the member axis; setters in sequence; any real values'
OUTSIDE = 'larger arrays'

LINEAR = ['error', 'ab_error', 'f_determ', 'spread', 'variance', 'sq_error']


def metrics(X, v, which):
    out = {}
    for m in which:
        X.rewind()
        if m == 'cdf_below': out[m] = v.cdf(below=1.25)
        elif m == 'cdf_over': out[m] = v.cdf(over=1.25)
        elif m == 'brier': out[m] = v.brier(over=1.25)
        elif m == 'iou_determ': out[m] = v.iou_determ(below=1.25)
        elif m == 'iou_prob': out[m] = v.iou_prob(over=(1.25, 0.3), below=(None, None))
        elif m == 'ss': out[m] = v.binned_spread_skill(nbins=2)
        elif m == 'rel': out[m] = v.reliability(nbins=2, over=1.25)
        elif m == 'roc': out[m] = v.roc(over=1.25)
        elif m == 'sharpness': out[m] = v.sharpness(below=1.25)
        elif m == 'decomp': out[m] = v.brier_decomp(below=1.25)
        else: out[m] = getattr(v, m)()
    return out


GROUPS = {'lin': LINEAR, 'prob': ['cdf_below', 'cdf_over', 'sharpness', 'brier'], 'crps': ['crps'], 'rank': ['rank_hist'], 'iou': ['iou_determ', 'iou_prob'],
          'corr': ['corr'], 'bins': ['rel', 'decomp'], 'ss': ['ss'], 'roc': ['roc']}


def configs(tier):
    out = []
    shapes = [((2,), 3), ((2, 3), 2), ((3,), 2)] + ([((1, 2, 2), 2), ((3, 2), 3)] if tier == 'thorough' else [])
    for sh, n in shapes:
        for g in GROUPS:
            if g in ('corr', 'ss', 'roc', 'bins', 'iou', 'rank') and sh != (2,) and tier == 'quick': continue
            out.append({'name': 'axis-%s-%s' % (g, name(sh)), 'params': {'what': 'axis', 'shape': list(sh), 'n': n, 'group': g}})
    for sh in ((2,), (2, 2)):
        for g in ('lin', 'prob', 'crps', 'rank'):
            if g == 'rank' and sh == (2, 2): continue
            out.append({'name': 'set_axis-%s-%s' % (g, name(sh)), 'params': {'what': 'set_axis', 'shape': list(sh), 'n': 2, 'group': g}})
    for g in ('lin', 'iou', 'corr', 'ss', 'spare'):
        out.append({'name': 'set_collapse-%s' % g, 'params': {'what': 'set_collapse', 'shape': [2, 2] if g in ('lin', 'spare') else [3], 'n': 2, 'group': 'lin' if g == 'spare' else g}})
    for g in ('lin', 'prob', 'crps'):
        out.append({'name': 'set_avg-%s' % g, 'params': {'what': 'set_avg', 'shape': [2, 2], 'n': 2, 'group': g}})
    out.append({'name': 'set_boot', 'params': {'what': 'set_boot', 'shape': [2], 'n': 2, 'group': 'lin'}})
    out.append({'name': 'guess', 'params': {'what': 'guess', 'shape': [2], 'n': 2, 'group': 'lin'}})
    return out


def run(X, what, shape, n, group):
    shape = tuple(shape)
    nd = len(shape)
    which = GROUPS[group]
    V = X.cls('VerifyEnsemble')
    o = X.reals('o', shape, -100, 100)
    fl = X.reals('f', shape + (n,), -100, 100)
    ff = first_of(X, fl, shape, n)
    def guard(f, axis_first):
        """Concrete replays stay away from decisions that rounding could change."""
        for k in X.np.ndindex(*shape): X.apart(X.mean(members(f, k, n, axis_first)), 1.25)
    if group in ('iou', 'ss', 'corr'): guard(fl, False)
    if group == 'corr':
        for m in range(2):
            pass
        X.assume(X.abs(fl[(0,) * nd + (0,)] - fl[(1,) + (0,) * (nd - 1) + (0,)]) >= 1)
        X.assume(X.abs(o[(0,) * nd] - o[(1,) + (0,) * (nd - 1)]) >= 1)
        for k in X.np.ndindex(*shape):
            for m in range(1, n): X.assume(fl[k + (m,)] == fl[k + (0,)])
    if group == 'ss':
        ds = [fl[k + (1,)] - fl[k + (0,)] for k in X.np.ndindex(*shape)]
        for k in X.np.ndindex(*shape):
            for m in range(2, n): X.assume(fl[k + (m,)] == fl[k + (0,)])
        for i in range(len(ds)):
            X.assume(ds[i] >= 1)
            for j in range(i): X.assume(X.abs(ds[i] - ds[j]) >= 0.01)
    if group == 'roc':
        X.assume(o[0] > 2); X.assume(o[1] < 1)
    if what == 'axis':
        ref = metrics(X, V(fl, o, ensemble_axis=nd), which)
        for f, ax in ((fl, -1), (fl, None), (ff, 0), (ff, -nd - 1)) + (((ff, None),) if shape + (n,) != (n,) + shape and shape != (n,) + shape[1:] and [n] + list(shape[:-1]) != list(shape) else ()):
            for m, r in metrics(X, V(f, o, ensemble_axis=ax), which).items(): same(X, r, ref[m], '%s with member axis %s' % (m, ax))
        return
    if what == 'set_axis':
        # a cube: both positions are possible
        cube = X.reals('cube', (2,) * (nd + 1), -100, 100)
        want = metrics(X, V(cube, o, ensemble_axis=0), which)
        v = V(cube, o, ensemble_axis=-1)
        metrics(X, v, which[:1])
        v.set_ensemble_axis(0)
        for m, r in metrics(X, v, which).items(): same(X, r, want[m], '%s after set_ensemble_axis' % m)
        v.set_ensemble_axis(-1)
        want = metrics(X, V(cube, o, ensemble_axis=-1), which)
        for m, r in metrics(X, v, which).items(): same(X, r, want[m], '%s after set_ensemble_axis back' % m)
        return
    if what == 'set_collapse':
        fun = X.np.max
        want = metrics(X, V(fl, o, ensemble_axis=-1, ensemble_collapse_func=fun, avg_axis=0), which)
        v = V(fl, o, ensemble_axis=-1, avg_axis=0)
        v.set_collapse_func(fun)
        for m, r in metrics(X, v, which).items(): same(X, r, want[m], '%s after set_collapse_func' % m)
        c = X.arr(shape, lambda *k: X.maxof(members(fl, k, n, False)))
        if group == 'lin': X.eq(v.error(), X.pooled(X.arr(shape, lambda *k: c[k] - o[k]), 0, X.mean), 'error uses the collapse function')
        return
    if what == 'set_avg':
        v = V(fl, o, ensemble_axis=-1)
        for ax in (0, (1,), [0, 1], -1, None):
            v.set_avg_axis(ax)
            want = metrics(X, V(fl, o, ensemble_axis=-1, avg_axis=ax), which)
            for m, r in metrics(X, v, which).items(): same(X, r, want[m], '%s after set_avg_axis' % m)
        return
    if what == 'set_boot':
        X.setenv(boot_repeats=2)
        v = V(fl, o, ensemble_axis=-1)
        for how in (lambda: v.set_boot_samples(2), lambda: v.disable_boot(), lambda: v.set_boot_samples(1)):
            how()
            k = v.boot_samples
            want = metrics(X, V(fl, o, ensemble_axis=-1, boot_samples=k), ['error', 'spread'])
            for m, r in metrics(X, v, ['error', 'spread']).items(): same(X, r, want[m], '%s after changing the bootstrap' % m)
        return
    if what == 'guess':
        # last axis first, then the first one, else refused
        sq = X.reals('sq', (2, 2), -10, 10)
        X.eq(V(sq, o).error(), X.mean([X.mean([sq[i, 0], sq[i, 1]]) - o[i] for i in range(2)]), 'the last axis is preferred')
        X.eq(V(sq, o).spread(), X.mean([X.abs(sq[i, 0] - sq[i, 1]) for i in range(2)]), 'the last axis is preferred for the spread')
        X.eq(V(sq, o).cdf(below=0.5), X.arr((2,), lambda i: X.count([sq[i, 0] <= 0.5, sq[i, 1] <= 0.5]) / 2), 'the last axis is preferred for probabilities')
        t = X.reals('t', (3, 2), -10, 10)
        X.eq(V(t, o).spread(), X.mean([X.maxof([t[m, i] for m in range(3)]) - X.minof([t[m, i] for m in range(3)]) for i in range(2)]), 'the first axis is the second choice for the spread')
        X.eq(V(t, o).error(), X.mean([X.mean([t[m, i] for m in range(3)]) - o[i] for i in range(2)]), 'the first axis is the second choice')
        X.refuses(lambda: V(X.np.zeros((3, 3)), o), 'no fitting member axis is refused')
        X.refuses(lambda: V(X.np.zeros((2, 3, 2)), X.np.zeros((2, 2))), 'a middle member axis is refused')
        X.refuses(lambda: V(t, o, ensemble_axis=-1), 'a member axis leaving another shape is refused')
        X.refuses(lambda: V(X.np.zeros((2, 3, 2)), X.np.zeros((2, 2)), ensemble_axis=1), 'a middle member axis is refused when given')
