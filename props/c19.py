"""C19: sampled ensembles have the right layout, parameters and support."""
from .common import *
from . import c06, c07
BOUNDS = '1-3 members, up to 4 cells of rank 1-3, member axis at every position; parameters symbolic in one or two cells (moderate sizes) and different constants elsewhere; every random draw'
OUTSIDE = 'larger arrays, more extreme parameters, the library\'s random generators (every outcome is possible)'


def configs(tier):
    out = []
    for kind in ('gauss', 'tgauss', 'gamma', 'tgamma'):
        for sh in ((2,), (2, 2), (2, 1)) if kind in ('gauss', 'gamma') else ((2,), (1, 2)):
            for pos in range(-len(sh) - 1, len(sh) + 1):
                for n in (2, 3) if sh == (2,) else (2,):
                    if tier == 'quick' and n == 3 and kind.startswith('t'): continue
                    out.append({'name': 'layout-%s-%s-%d-%d' % (kind, name(sh), pos, n), 'params': {'what': 'layout', 'kind': kind, 'shape': list(sh), 'pos': pos, 'n': n}})
                    if n == 2 and (kind == 'gauss' or sh == (2,)):
                        out.append({'name': 'reduce-%s-%s-%d' % (kind, name(sh), pos), 'params': {'what': 'reduce', 'kind': kind, 'shape': list(sh), 'pos': pos, 'n': n}})
        for pos in (-1, 0):
            out.append({'name': 'clip-%s-%d' % (kind, pos), 'params': {'what': 'clip', 'kind': kind, 'shape': [2], 'pos': pos, 'n': 2}})
            out.append({'name': 'support-%s-%d' % (kind, pos), 'params': {'what': 'support', 'kind': kind, 'shape': [1], 'pos': pos, 'n': 2}})
    return out


def run(X, what, kind, shape, pos, n):
    shape = tuple(shape)
    p = c07.sample_params(X, kind, shape)
    full = list(shape)
    full.insert(pos % (len(shape) + 1), n)
    o = X.reals('o', shape, -100, 100)
    mk = lambda **k: c06.verifier(X, kind, p, o, n_sample_members=n, move_sampled_ens_axis=pos, **k)
    X.rewind()
    ens = mk().prob_to_ens()
    X.prove(tuple(ens.shape) == tuple(full), 'observation shape with the member axis at the requested position')
    first = X.np.moveaxis(ens, pos, 0)
    if what == 'layout':
        one, zero = X.np.ones(shape), X.np.zeros(shape)
        q = {'mu': one if not kind.endswith('gauss') else zero, 'sigma': one, 'shift': zero, 'unshifted_mu': one}
        q = {k: q[k] for k in p}
        std = lambda nm, k: c06.verifier(X, kind, q, o, n_sample_members=n, move_sampled_ens_axis=0).prob_to_ens()
        c07.check_sample(X, kind, p, first, shape, n, True, lambda *a: std('g', a), lambda *a: std('m', a), 'in its place')
        return
    if what == 'support':
        for x in X.cells(ens):
            if kind.startswith('t'): X.prove(x >= -1e-9, 'truncated members are not negative')
            elif kind == 'gamma': X.prove(x >= p['shift'][0] - 1e-9, 'gamma members are not below the shift')
        # members can be anywhere in the support
        if kind == 'gauss':
            X.exists_draw(lambda: (X.rewind(), mk().prob_to_ens())[1], lambda e: X.cells(e)[0] > X.cells(e)[1], 'members differ')
        return
    if what == 'clip':
        lim = X.real('lim', 0, 5)
        X.rewind()
        if not X.symbolic: lim = float(lim)
        got = mk(clip_member_to_zero=lim).prob_to_ens()
        for a, b in zip(X.cells(got), X.cells(ens)):
            X.apart(b, lim)
            X.eq(a, X.ite(b < lim, 0.0, b), 'exactly the members below the limit become zero')
        X.rewind()
        got = mk().set_member_clip(lim).prob_to_ens()
        for a, b in zip(X.cells(got), X.cells(ens)): X.eq(a, X.ite(b < lim, 0.0, b), 'clip set later')
        return
    X.rewind()
    v = mk()
    sp = v.spread()
    cells = list(X.np.ndindex(*shape))
    ms = {k: [first[(m,) + k] for m in range(n)] for k in cells}
    for k in cells:
        for i in range(n):
            X.assume(ms[k][i] != o[k])
            X.apart(ms[k][i], o[k])
    X.eq(X.scalar(sp), X.mean([X.maxof(ms[k]) - X.minof(ms[k]) for k in cells]), 'spread over the members')
    X.rewind()
    part = mk(avg_axis=(0,)).spread()
    X.eq(part, X.pooled(X.arr(shape, lambda *k: X.maxof(ms[k]) - X.minof(ms[k])), (0,), X.mean), 'spread keeps the other axes')
    X.rewind()
    r = mk().rank_hist()
    X.prove(tuple(r.shape) == shape, 'ranks have the observation shape')
    for k in cells: X.eq(r[k], 1 + X.count([m < o[k] for m in ms[k]]), 'rank among the sampled members')
