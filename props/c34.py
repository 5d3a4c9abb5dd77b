"""C34: inputs that do not fit together are refused, and those that fit are accepted."""
from .common import *
BOUNDS = 'arrays of rank 0-3 with 1-2 (3 for one axis) cells per axis in every combination, including shapes that would broadcast; every way of giving the member axis; every combination of missing parameters, threshold sides and threshold shapes; any real values'
OUTSIDE = 'larger arrays; deterministic thresholds given as arrays (they follow the broadcasting rules)'

KEYS = {'gauss': ('VerifyProbGaussian', ('mu', 'sigma')), 'gamma': ('VerifyProbGamma', ('mu', 'sigma', 'shift', 'unshifted_mu')), 'hurdle': ('VerifyProbGammaHurdle', ('pop', 'mu', 'sigma'))}
SMALL = [(), (1,), (2,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2)]
SHAPES = SMALL
KINDS = ('determ', 'ens', 'gauss', 'gamma', 'hurdle')


def configs(tier):
    global SHAPES
    SHAPES = SMALL if tier == 'quick' else SMALL + [(3,), (2, 1, 2), (1, 2, 2), (2, 2, 2)]
    out = [{'name': 'shapes-%s' % k, 'params': {'kind': k, 'what': 'shapes'}, 'weight': 2} for k in KINDS]
    out += [{'name': 'keys-%s' % k, 'params': {'kind': k, 'what': 'keys'}} for k in KINDS]
    out += [{'name': 'sides-%s' % k, 'params': {'kind': k, 'what': 'sides'}} for k in KINDS]
    out += [{'name': 'cell-%s' % k, 'params': {'kind': k, 'what': 'cell'}} for k in KINDS if k != 'determ']
    out += [{'name': 'settings-%s' % k, 'params': {'kind': k, 'what': 'settings'}} for k in KINDS]
    out += [{'name': 'probability-%s' % k, 'params': {'kind': k, 'what': 'probability'}} for k in ('ens', 'gauss', 'hurdle', 'direct')]
    out += [{'name': 'utils-%s' % k, 'params': {'kind': k, 'what': 'utils'}} for k in ('corr', 'decomp', 'rel', 'ss', 'iou_determ', 'iou_prob', 'ranks', 'roc', 'dm', 'vec', 'threshold')]
    out += [{'name': 'missing-ranks', 'params': {'kind': 'ens', 'what': 'missing'}}]
    return out


def accepts(X, f, ok, label):
    """f() must raise exactly when not ok."""
    if ok is None: return f()
    try: r = f()
    except Exception as e:
        X.prove(not ok, label + ': accepted')
        return None
    X.prove(ok, label + ': refused')
    return r


def params(X, kind, shape, sub=None):
    """Valid parameters; `sub` maps a key to another shape."""
    lo = {'pop': (0, 1), 'mu': (1, 9), 'sigma': (1, 2), 'shift': (-1, -0.5), 'unshifted_mu': (1, 9)}
    return {k: X.reals(k, (sub or {}).get(k, shape), *lo[k]) for k in KEYS[kind][1]}


def build(X, kind, shape, **kw):
    o = X.reals('o', shape, -5, 5)
    if kind == 'determ': return X.cls('VerifyDeterm')(X.reals('f', shape, -5, 5), o, **kw)
    if kind == 'ens': return X.cls('VerifyEnsemble')(X.reals('f', shape + (2,), -5, 5), o, ensemble_axis=-1, **kw)
    if kind == 'hurdle': kw = dict(kw, n_approx_bins=2, integration_range=(-1.0, 3.0))
    return X.cls(KEYS[kind][0])(params(X, kind, shape), o, **kw)


def run(X, kind, what):
    return globals()['run_' + what](X, kind)


def run_shapes(X, kind):
    so = SHAPES[X.choose(len(SHAPES), 'o')]
    if kind == 'ens':
        fs = [(2,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 2, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (2, 3, 2)]
        sf = fs[X.choose(len(fs), 'f')]
        nd = len(sf)
        axes = [None, -1, 0, nd - 1, -nd, 1, -2]
        ax = axes[X.choose(len(axes), 'axis')]
        fits = lambda a: a in (0, -1, nd - 1, -nd) and tuple(s for i, s in enumerate(sf) if i != a % nd) == so
        if ax is None: at = [a for a in (-1, 0) if fits(a)]
        else: at = [ax] if -nd <= ax < nd and fits(ax) else []
        f, o = X.reals('f', sf, -5, 5), X.reals('o', so, -5, 5)
        v = accepts(X, lambda: X.cls('VerifyEnsemble')(f, o, ensemble_axis=ax), bool(at), 'members %s and observations %s, axis %s' % (sf, so, ax))
        if v is None: return
        got = v.f_determ()
        X.prove(tuple(X.np.shape(got)) == so, 'central forecast has the shape of the observations')
        if so:
            a = at[0] % nd
            for k in X.np.ndindex(*so): X.eq(got[k], X.mean([f[k[:a] + (m,) + k[a:]] for m in range(sf[a])]), 'central forecast along the member axis')
        mid = [i for i in range(1, nd - 1)]
        for i in mid: X.refuses(lambda: v.set_ensemble_axis(i), 'a middle member axis is refused')
        return
    o = X.reals('o', so, -5, 5)
    other = SHAPES[X.choose(len(SHAPES), 'f')]
    if kind == 'determ':
        f = X.reals('f', other, -5, 5)
        accepts(X, lambda: X.cls('VerifyDeterm')(f, o), other == so, 'forecasts %s and observations %s' % (other, so))
        return
    c, keys = KEYS[kind]
    n = X.choose(len(keys) + 1, 'which')
    sub = {keys[n]: other} if n < len(keys) else {k: other for k in keys}
    f = params(X, kind, so, sub)
    accepts(X, lambda: X.cls(c)(f, o), other == so, '%s of shape %s and observations %s' % ('/'.join(sub), other, so))


def run_keys(X, kind):
    o = X.reals('o', (2,), -5, 5)
    if kind == 'determ':
        f = X.reals('f', (2,), -5, 5)
        X.refuses(lambda: X.cls('VerifyDeterm')([1.0, 2.0], o), 'a list of forecasts is refused')
        X.refuses(lambda: X.cls('VerifyDeterm')(f, [1.0, 2.0]), 'a list of observations is refused')
        X.refuses(lambda: X.cls('VerifyDeterm')({'mu': f}, o), 'parameters are not a deterministic forecast')
        return
    if kind == 'ens':
        f = X.reals('f', (2, 2), -5, 5)
        X.refuses(lambda: X.cls('VerifyEnsemble')([[1.0, 2.0], [1.0, 2.0]], o), 'a list of forecasts is refused')
        X.refuses(lambda: X.cls('VerifyEnsemble')(f, [1.0, 2.0]), 'a list of observations is refused')
        X.refuses(lambda: X.cls('VerifyEnsemble')(f, o, ensemble_collapse_func='mean'), 'a collapse function that cannot be called is refused')
        X.refuses(lambda: X.cls('VerifyEnsemble')(f, o, ensemble_axis='0'), 'a member axis that is not a number is refused')
        return
    c, keys = KEYS[kind]
    f = params(X, kind, (2,))
    have = [k for k in keys if X.choose(2, k) == 0]
    g = {k: f[k] for k in have}
    accepts(X, lambda: X.cls(c)(g, o), len(have) == len(keys), 'parameters %s' % '/'.join(have))
    if len(have) < len(keys): return
    X.refuses(lambda: X.cls(c)([f[k] for k in keys], o), 'parameters without names are refused')
    X.refuses(lambda: X.cls(c)(f['mu'], o), 'an array is refused')
    X.refuses(lambda: X.cls(c)(f, [1.0, 2.0]), 'a list of observations is refused')


def run_sides(X, kind):
    v = build(X, kind, (2, 2))
    t = X.real('t', -5, 5)
    both = X.choose(2, 'both')
    kw = {'over': t, 'below': t} if both else {}
    calls = {'iou_determ': lambda: v.iou_determ(**kw)}
    if kind != 'determ':
        for m in ('cdf', 'brier', 'brier_decomp', 'sharpness', 'roc'): calls[m] = lambda m=m: getattr(v, m)(**kw)
        calls['reliability'] = lambda: v.reliability(nbins=2, **kw)
        q = {'over': (t, 0.5), 'below': (t, None)} if both else {'over': (None, 0.5), 'below': (None, None)}
        calls['iou_prob'] = lambda: v.iou_prob(**q)
        z = {'over': (t, 0.5), 'below': (None, 0.5)} if both else {'over': (t, None), 'below': (None, None)}
        calls['iou_prob (probabilities)'] = lambda: v.iou_prob(**z)
    for m, f in calls.items(): X.refuses(f, '%s with %s sides of the threshold is refused' % (m, 'both' if both else 'no'))


def run_cell(X, kind):
    sh = [(2,), (2, 2), (1, 2)][X.choose(3, 'shape')]
    v = build(X, kind, sh)
    st = SHAPES[X.choose(len(SHAPES), 'threshold')]
    side = ('below', 'over')[X.choose(2, 'side')]
    if st == (): t = X.real('t', -5, 5)
    else: t = X.reals('t', st, -5, 5)
    r = accepts(X, lambda: v.cdf(**{side: t}), st in ((), sh), 'thresholds %s for cells %s' % (st, sh))
    if r is not None: X.prove(tuple(r.shape) == sh, 'one probability per cell')
    if st == ():
        X.refuses(lambda: v.cdf(**{side: [1.0] * sh[0]}), 'a list of thresholds is refused')
        X.refuses(lambda: v.cdf(**{side: '1.0'}) if kind != 'ens' else v.cdf(**{side: (1.0,)}), 'a threshold that is not a number is refused')


def run_settings(X, kind):
    bad = [dict(avg_axis='0'), dict(avg_axis=0.5), dict(boot_samples=2.5), dict(boot_samples='2'), dict(start_from_scratch='no'), dict(working_directory=3)]
    if kind not in ('determ', 'ens'):
        bad += [dict(n_sample_members=2.5), dict(truncated=1), dict(clip_member_to_zero='0'), dict(move_sampled_ens_axis=0.5), dict(pit_randomize_zero_ranks='no')]
    if kind == 'hurdle': bad += [dict(truncated=True)]
    i = X.choose(len(bad), 'setting')
    X.refuses(lambda: build(X, kind, (2,), **bad[i]), 'the setting %s is refused' % (bad[i],))
    v = build(X, kind, (2,))
    k, b = list(bad[i].items())[0]
    s = {'avg_axis': 'set_avg_axis', 'boot_samples': 'set_boot_samples', 'n_sample_members': 'set_ensemble_members', 'truncated': 'set_truncation', 'clip_member_to_zero': 'set_member_clip',
         'move_sampled_ens_axis': 'set_move_sampled_ens_axis'}.get(k)
    if s: X.refuses(lambda: getattr(v, s)(b), '%s refuses %r' % (s, b))
    if kind in ('gauss', 'gamma', 'hurdle'):
        v = build(X, kind, (2,))
        X.refuses(lambda: v.prob_to_ens(), 'sampling without a number of members is refused')
        X.refuses(lambda: v.spread(), 'spread without a number of members is refused')


def run_probability(X, kind):
    """Probability thresholds outside [0, 1] are refused, those inside are not."""
    q = X.real('q', -3, 4)
    over = X.choose(2, 'side')
    X.assume(X.and_(X.or_(q <= -1e-6, q >= 0), X.or_(q <= 1, q >= 1 + 1e-6)))
    inside = X.decide(X.and_(q >= 0, q <= 1))
    if kind == 'direct':
        p = X.reals('p', (2,), 0, 1)
        ob = X.array([True, False], (2,))
        call = lambda: X.fn('utils_verify', 'iou_prob')(p, ob, **({'over': q} if over else {'below': q}))
    else:
        v = build(X, kind, (1, 2))
        call = lambda: v.iou_prob(over=(0.5, q if over else None), below=(None, None if over else q))
    accepts(X, call, inside, 'probability threshold inside [0, 1]')


def run_utils(X, kind):
    if kind == 'dm':
        sizes = [X.choose(2, 'size') + 2 for _ in range(3)]
        a, b, c = [X.reals(nm, (n,), -5, 5) for nm, n in zip('abc', sizes)]
        f = X.fn('utils_significance', 'diebold_mariano_test')
        if len(set(sizes)) > 1:
            X.refuses(lambda: f(a, b, c), 'series of different lengths are refused')
            return
        for h in (0, -1, sizes[0], sizes[0] + 1): X.refuses(lambda: f(a, b, c, h=h), 'a horizon of %d is refused' % h)
        X.refuses(lambda: f(a, b, c, h=1.0), 'a fractional horizon is refused')
        X.refuses(lambda: f(a, b, c, crit='mse'), 'an unknown criterion is refused')
        return
    if kind == 'vec':
        X.refuses(lambda: X.fn('utils_verify', 'boot_vec')(X.reals('m', (2, 2), -5, 5), n_samples=1, repeats=1, confidence=0.5), 'resampling a matrix as a vector is refused')
        return
    if kind == 'threshold':
        f = X.reals('f', (2, 2), -5, 5)
        p = X.fn('utils_verify', 'ens_to_prob')
        X.setenv(ens_to_prob_method='average')
        for w in (1, 2):
            X.setenv(tqdm_workers=w)
            X.refuses(lambda: p(f, -1, below=0.5), 'an unknown method is refused')
        return
    shapes = [(1,), (2,), (1, 2), (2, 1), (2, 2), (3, 2), (4,)] if kind != 'roc' else [(2,), (3,), (1, 2), (3, 1)]
    sf, so = shapes[X.choose(len(shapes), 'f')], shapes[X.choose(len(shapes), 'o')]
    if kind == 'roc':
        n = lambda s: int(X.np.prod(s))
        if n(sf) == n(so): return
        X.refuses(lambda: X.fn('utils_verify', 'calculate_roc')(X.reals('f', sf, 0, 1), X.array([i % 2 == 0 for i in range(n(so))], so)), 'probabilities and events of different sizes are refused')
        return
    if sf == so: return
    f, o = X.reals('f', sf, 0, 1), X.reals('o', so, 0, 1)
    calls = {'corr': lambda: X.fn('utils_special_boot', 'corr')(f, o), 'decomp': lambda: X.fn('utils_special_boot', 'brier_decomp')(f, o > 0.5),
             'rel': lambda: X.fn('utils_verify', 'reliability_diagram')(f, o > 0.5, 2, None), 'ss': lambda: X.fn('utils_ss', 'binned_spread_skill')(f, o, 1, None),
             'iou_determ': lambda: X.fn('utils_verify', 'iou_determ')(f, o, over=0.5), 'iou_prob': lambda: X.fn('utils_verify', 'iou_prob')(f, o > 0.5, over=0.5)}
    if kind == 'ranks':
        m = X.arr((2,) + sf, lambda i, *k: f[k] + i)
        X.refuses(lambda: X.fn('utils_verify', 'rank_histogram')(m, o, 0), 'members %s and observations %s are refused' % (sf, so))
        return
    X.refuses(calls[kind], 'arrays of shapes %s and %s are refused' % (sf, so))


def run_missing(X, kind):
    """Ranks need every value unless missing ones are to be skipped."""
    o, f = X.reals('o', (2,), -5, 5, nan=True), X.reals('f', (2, 2), -5, 5, nan=True)
    X.setenv(skip_nan='False')
    any_missing = X.decide(X.anyof([X.isnan(c) for c in X.cells(o) + X.cells(f)]))
    for i in range(2): X.assume(X.allof([X.or_(f[i, m] - o[i] >= 0.1, X.or_(o[i] - f[i, m] >= 0.1, X.or_(X.isnan(o[i]), X.isnan(f[i, m])))) for m in range(2)]))
    accepts(X, lambda: X.cls('VerifyEnsemble')(f, o, ensemble_axis=-1).rank_hist(), not any_missing, 'ranks of complete data')
