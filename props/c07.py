"""C07: the number of workers and the mapping axis never change a result."""
from .common import *
from . import c06
BOUNDS = 'arrays of rank 1-3 with up to 6 cells, 1-3 members; 1 worker against 2 and 3 workers; every negative mapping axis; scalar and per-cell thresholds; any parameters within the bounds of C06'
OUTSIDE = 'larger arrays; the operating system\'s process pool itself (modelled as an ordered map over pickled copies); KDE with more than 3 samples'


def configs(tier):
    out = []
    shapes = ((2,), (2, 3), (2, 1, 2)) if tier == 'quick' else ((2,), (3,), (2, 3), (3, 2), (2, 1, 2), (1, 2, 2))
    for sh in shapes:
        for kind in ('gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle'):
            for thr in ('scalar', 'cell'):
                if tier == 'quick' and kind == 'tgauss' and sh == (2, 1, 2) and thr == 'scalar': continue
                s2 = sh
                if tier == 'quick' and sh == (2, 3): s2 = {'tgamma': (1, 2), 'tgauss': (1, 2), 'gamma': (2, 2), 'hurdle': (2, 2)}.get(kind, sh)
                out.append({'name': 'cdf-%s-%s-%s' % (kind, name(s2), thr), 'params': {'what': 'cdf', 'kind': kind, 'shape': list(s2), 'thr': thr}, 'weight': 3})
        for kind in ('moments', 'kde'):
            for pos in ('first', 'last'):
                if tier == 'quick' and kind == 'kde' and len(sh) == 3: continue
                out.append({'name': 'ens-%s-%s-%s' % (kind, name(sh), pos), 'params': {'what': 'ens', 'kind': kind, 'shape': list(sh), 'thr': pos}})
        for kind in ('gauss', 'tgauss', 'gamma', 'tgamma'):
            for pos in ('-1', '0'):
                s2 = {(2, 3): (1, 2), (2, 1, 2): (2, 1, 1), (3, 2): (2, 1), (1, 2, 2): (1, 2, 1)}.get(sh, sh) if kind.startswith('t') else sh
                out.append({'name': 'sample-%s-%s-%s' % (kind, name(s2), pos), 'params': {'what': 'sample', 'kind': kind, 'shape': list(s2), 'thr': pos}})
    for sh in ((2,), (1, 2), (2, 1)):
        for pos in ('first', 'last'):
            for kind in ('free', 'ties', 'skip'):
                out.append({'name': 'rank-%s-%s-%s' % (kind, name(sh), pos), 'params': {'what': 'rank', 'kind': kind, 'shape': list(sh), 'thr': pos}})
    return out


def run(X, what, kind, shape, thr):
    shape = tuple(shape)
    nd = len(shape)
    axes = [-a - 1 for a in range(nd)]
    if what == 'cdf':
        o, p = c06.params(X, kind, shape)
        if thr == 'scalar': t = X.real('t', -100, 100)
        else: t = X.reals('t', shape, -100, 100)
        X.setenv(tqdm_workers=1)
        one = c06.below_fn(X, kind, p)(t)
        X.eq(one, X.arr(shape, lambda *k: one[k]), 'shape')
        X.prove(one.shape == shape, 'one worker: observation shape')
        for w in (2, 3):
            for ax in axes:
                X.setenv(tqdm_workers=w, tqdm_map_axis=ax)
                X.eq(c06.below_fn(X, kind, p)(t), one, '%d workers along axis %d' % (w, ax))
                X.eq(c06.verifier(X, kind, p, o).cdf(over=t), 1 - one, 'exceedance with %d workers along axis %d' % (w, ax))
        return
    if what == 'ens':
        first = thr == 'first'
        n = 2
        f = X.reals('f', (n,) + shape if first else shape + (n,), -100, 100)
        if kind == 'kde':
            X.setenv(ens_to_prob_method='kde', kde_samples=3, kde_bandwidth=2)
            for k in X.np.ndindex(*shape):
                ms = members(f, k, n, first)
                X.assume(ms[1] - ms[0] >= 1)
        e2p = X.fn('utils_verify', 'ens_to_prob')
        t = X.reals('t', shape, -100, 100)
        for th in (t, 1.5):
            X.setenv(tqdm_workers=1)
            one = e2p(f, 0 if first else -1, below=th)
            ov = e2p(f, 0 if first else -1, over=th)
            for ax in axes:
                X.setenv(tqdm_workers=2, tqdm_map_axis=ax)
                X.eq(e2p(f, 0 if first else -1, below=th), one, 'two workers')
                X.eq(e2p(f, 0 if first else -1, over=th), ov, 'two workers, exceedance')
        return
    if what == 'rank':
        first = thr == 'first'
        n = 2
        f = X.reals('f', (n,) + shape if first else shape + (n,), -100, 100, nan=kind == 'skip')
        o = X.reals('o', shape, -100, 100, nan=kind == 'skip')
        X.setenv(skip_nan=kind == 'skip')
        rh = X.fn('utils_verify', 'rank_histogram')
        if kind == 'free':
            for k in X.np.ndindex(*shape):
                for m in members(f, k, n, first): X.assume(m != o[k])
        X.setenv(tqdm_workers=1)
        one = rh(f, o, 0 if first else -1) if kind == 'free' else None
        for ax in axes:
            X.setenv(tqdm_workers=2, tqdm_map_axis=ax)
            r = rh(f, o, 0 if first else -1)
            X.prove(r.shape == shape, 'ranks have the observation shape')
            if kind == 'free': X.eq(r, one, 'ranks with two workers')
            else:
                for k in X.np.ndindex(*shape):
                    ms = members(f, k, n, first)
                    if kind == 'skip':
                        miss = X.anyof([X.isnan(x) for x in ms + [o[k]]])
                        X.prove(X.iff(X.isnan(r[k]), miss), 'missing ranks')
                        if X.decide(miss): continue
                    X.prove(X.and_(r[k] >= 1 + X.count([m < o[k] for m in ms]), r[k] <= 1 + X.count([m <= o[k] for m in ms])), 'rank within its range')
        return
    # sampled members: every member must be its own cell's quantile of the draw
    pos = int(thr)
    n = 2
    sd_g, sd_m = X.fn('utils_dist', 'sample_dist_gaussian'), X.fn('utils_dist', 'sample_dist_gamma')
    p = sample_params(X, kind, shape)
    for w, ax in [(1, -1)] + [(2, a) for a in axes]:
        X.setenv(tqdm_workers=w, tqdm_map_axis=ax)
        X.rewind()
        if kind.endswith('gauss'): ens = sd_g(p['mu'], p['sigma'], n, pos, kind == 'tgauss')
        else: ens = sd_m(p['unshifted_mu'], p['sigma'], p['shift'], n, pos, kind == 'tgamma')
        X.prove(ens.shape == ((n,) + shape if pos == 0 else shape + (n,)), 'layout of the sample with %d workers' % w)
        check_sample(X, kind, p, ens, shape, n, pos == 0, sd_g, sd_m, 'with %d workers along %d' % (w, ax))


def sample_params(X, kind, shape):
    """Parameters of moderate size: symbolic in up to two cells of a Gaussian (one cell of the others), different constants elsewhere."""
    cells = list(X.np.ndindex(*shape))
    free = {cells[0], cells[-1]} if kind == 'gauss' else {cells[-1]}
    num = {k: i for i, k in enumerate(cells)}
    def mix(nm, lo, hi):
        s = X.reals(nm, (len(free),), lo, hi)
        it = {k: s[i] for i, k in enumerate(sorted(free))}
        return X.arr(shape, lambda *k: it[k] if k in free else lo + (hi - lo) * (num[k] + 1) / (len(cells) + 1.0))
    if kind.endswith('gauss'): return {'mu': mix('mu', -1 if kind == 'tgauss' else -50, 2 if kind == 'tgauss' else 50), 'sigma': mix('sigma', 1, 3)}
    um, sg, sh = mix('um', 1, 3), mix('sigma', 1, 3), mix('shift', -1, 0)
    return {'mu': X.arr(shape, lambda *k: um[k] + sh[k]), 'sigma': sg, 'shift': sh, 'unshifted_mu': um}


def check_sample(X, kind, p, ens, shape, n, first, sd_g, sd_m, label):
    """Compare with a sample of standard parameters from the same draws (same workers, same axis)."""
    X.rewind()
    one = X.np.ones(shape)
    zero = X.np.zeros(shape)
    label = 'member drawn from its own parameters ' + label
    if kind == 'gauss':
        z = sd_g(zero, one, n, 0 if first else -1, False)
        for k in X.np.ndindex(*shape):
            for a, b in zip(members(ens, k, n, first), members(z, k, n, first)): X.eq(a, p['mu'][k] + p['sigma'][k] * b, label)
        return
    if kind == 'tgauss':
        z = sd_g(zero, one, n, 0 if first else -1, True)
        for k in X.np.ndindex(*shape):
            pa = X.phi((0 - p['mu'][k]) / p['sigma'][k])
            for a, b in zip(members(ens, k, n, first), members(z, k, n, first)):
                u = (X.phi(b) - 0.5) / 0.5
                if not X.symbolic and not 0.001 < u < 0.999: continue
                X.eq(a, p['mu'][k] + p['sigma'][k] * X.phiinv(pa + u * (1 - pa)), label)
        return
    z = sd_m(one, one, zero, n, 0 if first else -1, kind == 'tgamma')
    for k in X.np.ndindex(*shape):
        s, c = c06.shape_scale(p, k)
        pa = X.ginc_pos(s, (0 - p['shift'][k]) / c) if kind == 'tgamma' else 0.0
        for a, b in zip(members(ens, k, n, first), members(z, k, n, first)):
            u = X.ginc(1.0, b)
            if not X.symbolic and not 0.001 < u < 0.999: continue
            X.eq(a, p['shift'][k] + c * X.gincinv(s, pa + u * (1 - pa)), label)
