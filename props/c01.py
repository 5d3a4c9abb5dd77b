"""C01: bias, MAE, MSE, RMSE average exactly the chosen axes."""
BOUNDS = 'arrays of rank 1-3 with 1-3 cells per axis (quick), rank 4 (thorough); 1-3 members; every listed axis set; any real values'
OUTSIDE = 'larger arrays; floating-point rounding'

AX = {1: [None, 0, -1, [0], (-1,)],
      2: [None, 0, 1, -1, -2, (0, 1), [1, 0], (-1, 0), (1,)],
      3: [None, 0, 1, 2, -1, -2, (0, 2), (0, 1), (1, 2), (-1, 0), [2, 0], (0, 1, 2), (-3, 1)],
      4: [0, 2, (0, 2), (1, 3), (-1, 1), (0, 1, 3), (3, 0)]}
SHAPES = {1: [(3,), (1,)], 2: [(2, 3), (3, 1)], 3: [(2, 1, 3), (2, 2, 2)], 4: [(2, 1, 2, 2)]}


def configs(tier):
    out = []
    for kind in ('determ', 'ens_last', 'ens_first', 'gauss', 'gamma'):
        for nd in (1, 2, 3, 4):
            if nd == 4 and tier == 'quick' and kind not in ('determ', 'ens_first'): continue
            for sh in SHAPES[nd] + ([(2, 1, 1, 2)] if nd == 4 and kind == 'ens_first' else []):
                if tier == 'quick' and kind == 'ens_first' and sh == (2, 1, 2, 2): continue
                if tier == 'quick' and sh == (2, 2, 2) and kind != 'ens_last': continue
                out.append({'name': '%s-%s' % (kind, 'x'.join(map(str, sh))), 'params': {'kind': kind, 'shape': list(sh)}, 'weight': nd})
    for sh in ((2,), (2, 2)):
        out.append({'name': 'hurdle-%s' % 'x'.join(map(str, sh)), 'params': {'kind': 'hurdle', 'shape': list(sh)}, 'weight': 3})
    return out


def run(X, kind, shape):
    shape = tuple(shape)
    o = X.reals('o', shape, -1e6, 1e6)
    if kind == 'determ':
        f = X.reals('f', shape, -1e6, 1e6)
        make = lambda **k: X.cls('VerifyDeterm')(f, o, **k)
        c = f
    elif kind.startswith('ens'):
        n = 3 if len(shape) < 2 else 2
        fs = shape + (n,) if kind == 'ens_last' else (n,) + shape
        f = X.reals('f', fs, -1e6, 1e6)
        ea = -1 if kind == 'ens_last' else 0
        make = lambda **k: X.cls('VerifyEnsemble')(f, o, ensemble_axis=ea, **k)
        c = X.arr(shape, lambda *k: X.mean([f[k + (m,)] if ea else f[(m,) + k] for m in range(n)]))
    elif kind == 'gauss':
        mu, sg = X.reals('mu', shape, -1e6, 1e6), X.reals('sigma', shape, pos=True, hi=1e6)
        make = lambda **k: X.cls('VerifyProbGaussian')({'mu': mu, 'sigma': sg}, o, **k)
        c = mu
    elif kind == 'gamma':
        mu, sg, sh = X.reals('mu', shape, -1e6, 1e6), X.reals('sigma', shape, pos=True, hi=1e6), X.reals('shift', shape, -1e6, 1e6)
        um = X.reals('umu', shape, pos=True, hi=1e6)
        make = lambda **k: X.cls('VerifyProbGamma')({'mu': mu, 'sigma': sg, 'shift': sh, 'unshifted_mu': um}, o, **k)
        c = mu
    else:
        pop, mu, sg = X.reals('pop', shape, 0, 1), X.reals('mu', shape, 0.5, 50), X.reals('sigma', shape, 0.5, 50)
        make = lambda **k: X.cls('VerifyProbGammaHurdle')({'pop': pop, 'mu': mu, 'sigma': sg}, o, n_approx_bins=3, integration_range=(-1.0, 4.0), **k)
        c = make().f_determ()
        X.prove(c.shape == shape, 'central forecast has the observation shape')
    e = X.arr(shape, lambda *k: c[k] - o[k])
    axes = AX[len(shape)]
    if kind == 'hurdle': axes = axes[:3]
    lean = kind.startswith('ens') and len(shape) > 1
    for i, ax in enumerate(axes):
        v = make(avg_axis=ax)
        for name, fun in (('error', lambda x: x), ('ab_error', X.abs), ('sq_error', lambda x: x * x)):
            want = X.pooled(e, ax, lambda cs: X.mean([fun(x) for x in cs]))
            X.eq(getattr(v, name)(), want, '%s over %s' % (name, ax))
        if lean and i not in (1, len(axes) - 1): continue
        got = v.rmse()
        want = X.pooled(e, ax, lambda cs: X.mean([x * x for x in cs]))
        X.eq(got * got, want, 'rmse over %s' % (ax,))
        for q in X.cells(got): X.prove(q >= 0, 'rmse is not negative')
