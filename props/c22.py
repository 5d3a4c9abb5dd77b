"""C22: numerical integration is the same in every mode and completion order."""
from .common import *
from . import c06
BOUNDS = 'hurdle forecasts of 1-2 cells with any parameters (the gamma CDF is any non-decreasing function with its laws), grids of 3-4 points, any observations; 1-3 workers, every completion order of the tasks, with and without the memory map'
OUTSIDE = 'more cells, finer grids, the distributed runtime and operating system themselves (modelled as tasks on pickled copies completing in any order)'


def configs(tier):
    out = []
    for what in ('mean', 'variance', 'crps'):
        for mode in ('one', 'mem', 'par', 'parmem', 'env'):
            for sh in ((1,), (2,), (1, 2)) if tier == 'quick' else ((1,), (2,), (1, 2), (2, 2)):
                for grid in ('given', 'default'):
                    if tier == 'quick' and mode in ('par', 'parmem') and sh == (1, 2): continue
                    if grid == 'default' and sh == (1,): continue
                    nb = 3
                    if mode in ('one', 'mem') and grid == 'given': nb = 4
                    if tier != 'quick' and grid == 'given': nb += 1
                    out.append({'name': '%s-%s-%s-%s' % (what, mode, name(sh), grid), 'params': {'what': what, 'mode': mode, 'shape': list(sh), 'grid': grid, 'nb': nb},
                                'weight': 3 if mode.startswith('par') else 1})
    for kind in ('f_determ', 'variance', 'crps'):
        out.append({'name': 'verifier-%s' % kind, 'params': {'what': kind, 'mode': 'verifier', 'shape': [2], 'grid': 'given', 'nb': 3}})
    for what in ('mean', 'crps'):
        out.append({'name': 'gauss-%s' % what, 'params': {'what': what, 'mode': 'gauss', 'shape': [2], 'grid': 'given', 'nb': 4}})
    return out


def run(X, what, mode, shape, grid, nb):
    shape = tuple(shape)
    kind = 'gauss' if mode == 'gauss' else 'hurdle'
    o, p = c06.params(X, kind, shape)
    cells = list(X.np.ndindex(*shape))
    v = c06.verifier(X, kind, p, o)
    if grid == 'given': rng = (-1.0, 8.0) if nb != 4 else (0.0, 9.0)
    else:
        rng = None
        X.assume(X.or_(o[cells[0]] - o[cells[-1]] >= 0.5, o[cells[-1]] - o[cells[0]] >= 0.5))
    Int = X.fn('utils_approximation', 'Integration')
    if mode == 'verifier':
        v = c06.verifier(X, kind, p, o, n_approx_bins=nb, integration_range=rng)
        got = {'f_determ': v.f_determ, 'variance': v.variance, 'crps': v.crps}[what]()
        xs = [rng[0] + (rng[1] - rng[0]) * i / (nb - 1.0) for i in range(nb)]
        what = 'mean' if what == 'f_determ' else what
        pool = what == 'crps'
    else:
        pool = False
        kw = {}
        if mode in ('mem', 'parmem'): kw['less_memory'] = True
        if mode in ('par', 'parmem'): kw['workers'] = 2
        if mode == 'env': X.setenv(tqdm_workers=3, integrate_with_less_memory=True, integrate_wdir=X.tmp, integrate_range_multiplier=2)
        it = Int(v, integration_range=rng, nbins=nb, memmap_dir=None if mode == 'env' else X.tmp, **kw)
        xs = X.cells(it.seq_x)
        X.prove(len(xs) == nb, 'as many grid points as requested')
        if grid == 'given': X.eq(it.seq_x, X.array([rng[0] + (rng[1] - rng[0]) * i / (nb - 1.0) for i in range(nb)]), 'the requested grid')
        else:
            for k in cells: X.prove(X.and_(xs[0] < o[k], xs[-1] > o[k]), 'the default grid extends beyond every observation')
            for i in range(nb - 2): X.eq(xs[i + 2] - xs[i + 1], xs[i + 1] - xs[i], 'evenly spaced')
        got = getattr(it, what)()
    X.setenv(tqdm_workers=1)
    for x in xs:
        for k in cells: X.apart(o[k], x)
    cd = [v.cdf(below=x) for x in xs]
    def one(*k):
        c = [cd[i][k] for i in range(nb)]
        if what == 'mean': return X.sum([(xs[i] + xs[i + 1]) / 2.0 * (c[i + 1] - c[i]) for i in range(nb - 1)])
        if what == 'variance':
            m = X.sum([(xs[i] + xs[i + 1]) / 2.0 * (c[i + 1] - c[i]) for i in range(nb - 1)])
            return X.sum([(xs[i] * xs[i] + xs[i + 1] * xs[i + 1]) / 2.0 * (c[i + 1] - c[i]) for i in range(nb - 1)]) - m * m
        e = [(c[i] - X.ite(o[k] < xs[i], 1.0, 0.0)) for i in range(nb)]
        return X.sum([(e[i] * e[i] + e[i + 1] * e[i + 1]) / 2.0 * (xs[i + 1] - xs[i]) for i in range(nb - 1)])
    want = X.arr(shape, one)
    if pool: X.eq(X.scalar(got), X.mean(X.cells(want)), what)
    else: X.eq(got, want, what)
    if what == 'variance' and grid == 'given' and shape == (1,):
        for k in cells: X.prove(want[k] >= -1e-9, 'variance is not negative')
