"""C02: missing values are skipped when asked and propagate otherwise."""
import itertools
import numpy as np
BOUNDS = 'arrays of rank 1-2 with up to 4 cells, up to 3 members; any subset of the cells missing, any real values elsewhere; skipping on and off, set before or after the verifier is made; bootstraps of 2-3 samples, resamples of 1-3, 1-2 repeats, every draw'
OUTSIDE = 'larger arrays'


def configs(tier):
    out = []
    for skip in (True, False):
        for kind in ('error', 'spread', 'corr', 'rank', 'sampled', 'perr'):
            if kind == 'rank' and not skip: continue
            for sh, ax in (((3,), None), ((2, 2), 1), ((2, 2), 0), ((2, 2), None), ((1, 2, 2), (2, 1))) if tier == 'quick' else (((3,), None), ((4,), 0), ((2, 2), 1), ((2, 2), 0), ((2, 2), None), ((2, 3), 1), ((1, 2, 2), (0, 2))):
                if kind == 'rank' and sh == (2, 2) and (ax == 0 or ax is None and tier == 'quick'): continue
                if kind == 'corr' and sh == (2, 2) and ax is None and tier == 'quick': continue
                if kind in ('spread', 'sampled', 'rank') and sh == (2, 3): continue
                if tier == 'quick' and len(sh) == 3 and kind not in ('error', 'perr'): continue
                out.append({'name': '%s-%s-%s-%s' % (kind, 'skip' if skip else 'keep', 'x'.join(map(str, sh)), ax),
                            'params': {'kind': kind, 'skip': skip, 'shape': list(sh), 'ax': ax}})
        # the setting is changed after the verifier was made
        for kind in ('error', 'perr', 'spread', 'corr', 'rank', 'sampled'):
            if kind == 'rank' and not skip: continue
            out.append({'name': '%s-%s-2-late' % (kind, 'skip' if skip else 'keep'), 'params': {'kind': kind, 'skip': skip, 'shape': [2], 'ax': 0, 'late': True}})
    for kind, size in (('error', 1), ('error', 2), ('crps', 2), ('ss', 2), ('corr', 2), ('corr', 3)) + ((('corr', 4),) if tier != 'quick' else ()):
        for skip in (True, False):
            for reps in (1, 2):
                if reps == 2 and (not skip or kind == 'corr' and size > 2): continue
                out.append({'name': 'boot-%s-%d-%s-%d' % (kind, size, 'skip' if skip else 'keep', reps), 'params': {'kind': 'boot', 'skip': skip, 'shape': [3 if kind == 'corr' or tier != 'quick' else 2], 'ax': 0, 'boot': [kind, size, reps]}, 'weight': 3})
    return out


def bootstrapped(X, skip, n, kind, size, reps):
    """Bootstrapped results are missing only when no resample has what is needed."""
    X.setenv(skip_nan=skip, boot_repeats=reps, boot_confidence=1.0)
    F, O = [1.0, 4.0, 2.5], [3.0, 1.0, 2.0]
    if kind == 'corr':
        h = X.choose(n + 1, 'hole')
        hole = [i == h for i in range(n)]
    else: hole = [X.choose(2, 'hole') == 1 for _ in range(n)]
    here = [i for i in range(n) if not hole[i]]
    if kind == 'corr': f, e = X.array([F[i] for i in range(n)]), None
    elif kind == 'ss': f, e = X.array([float(i + 1) for i in range(n)]), X.reals('e', (n,), 0, 100)
    else: f, e = X.np.zeros((n,)), X.reals('e', (n,), -100, 100)
    nan = float('nan')
    if kind == 'ss':
        sq = X.arr((n,), lambda i: nan if hole[i] else e[i])
        call = lambda: X.fn('utils_ss', 'binned_spread_skill')(f, sq, 1, None, boot_samples=size)[1][0]
        val = lambda i: e[i]
    elif kind == 'crps':
        o = X.arr((n,), lambda i: nan if hole[i] else -e[i])
        call = lambda: X.cls('VerifyEnsemble')(X.np.zeros((n, 2)), o, ensemble_axis=-1, avg_axis=0, boot_samples=size).crps()
        val = lambda i: X.abs(e[i])
    else:
        o = X.arr((n,), lambda i: nan if hole[i] else O[i] if kind == 'corr' else -e[i])
        v = X.cls('VerifyDeterm')(f, o, avg_axis=0, boot_samples=size)
        call = v.corr if kind == 'corr' else v.error
        val = lambda i: e[i]
    X.rewind()
    got = call()
    X.prove(tuple(X.np.shape(got)) == (3,), 'lower, mean and upper')
    log = X.drawn()
    # the samples of every resample (drawn from the whole slice, or from the samples that are there)
    drawn = [([j if m == n else here[j] for j in range(m) if X.decide(v == j)][0]) if m in (n, len(here)) else None for m, v in log]
    need = 2 if kind == 'corr' else 1
    enough = lambda js: len(set(j for j in js if not hole[j])) >= need and (skip or not any(hole[j] for j in js))
    if len(drawn) == reps * size and None not in drawn:
        res = [enough(drawn[r * size:(r + 1) * size]) for r in range(reps)]
        some = any(res) if skip else all(res)
        for j in range(3): X.prove(X.iff(X.isnan(got[j]), not some), 'missing exactly when no resample has what is needed')
    elif not drawn and len(here) >= need and len(here) < n and skip:
        for j in range(3): X.prove(X.not_(X.isnan(got[j])), 'a resample has values but the result is missing')
    if not here:
        for j in range(3): X.prove(X.isnan(got[j]), 'a slice without values has no result')
    if X.decide(X.isnan(got[1])): return
    # one replicate: the statistic of values that are there
    if reps == 1:
        ok = []
        for c in [c for r in range(1 if skip else size, size + 1) for c in itertools.combinations_with_replacement(here, r)]:
            if kind != 'corr': s = X.mean([val(i) for i in c])
            elif len(set(c)) > 1:
                a, b = np.array([F[i] for i in c]), np.array([O[i] for i in c])
                s = float(np.corrcoef(a, b)[0, 1])
            else: continue
            for g in [got[1] * got[1] if kind == 'ss' else got[1]]:
                ok.append(X.and_(g - s <= 1e-6 * (1 + X.abs(s)), s - g <= 1e-6 * (1 + X.abs(s))))
        X.prove(X.anyof(ok), 'the statistic of the values of a resample')


def run(X, kind, skip, shape, ax, late=False, boot=None):
    if kind == 'boot': return bootstrapped(X, skip, shape[0], *boot)
    shape = tuple(shape)
    ax = tuple(ax) if isinstance(ax, list) else ax
    X.setenv(skip_nan=late != skip)
    mean = X.nanmean if skip else X.mean
    if kind in ('error', 'perr', 'corr'):
        f = X.reals('f', shape, -100, 100, nan=True)
        o = X.reals('o', shape, -100, 100, nan=True)
        if kind == 'perr': v = X.cls('VerifyProbGaussian')({'mu': f, 'sigma': X.np.ones(shape)}, o, avg_axis=ax)
        else: v = X.cls('VerifyDeterm')(f, o, avg_axis=ax)
        X.setenv(skip_nan=skip)
        if kind != 'corr':
            for name, fun in (('error', lambda x: x), ('ab_error', X.abs), ('sq_error', lambda x: x * x)):
                e = X.arr(shape, lambda *k: fun(f[k] - o[k]))
                X.eq(getattr(v, name)(), X.pooled(e, ax, mean), name)
            return
        got = v.corr()
        for (kk, fs), (_, os_) in zip(X.slices(f, ax), X.slices(o, ax)):
            g = X.at(got, kk)
            miss = X.anyof([X.isnan(x) for x in fs + os_])
            if not skip:
                if X.decide(miss):
                    X.prove(X.isnan(g), 'a missing value makes the correlation missing')
                    continue
                pf, po = fs, os_
            else:
                keep = [i for i in range(len(fs)) if not X.decide(X.or_(X.isnan(fs[i]), X.isnan(os_[i])))]
                pf, po = [fs[i] for i in keep], [os_[i] for i in keep]
                if len(pf) < 2: continue
            check_corr(X, g, pf, po)
        return
    n = 2
    if kind == 'spread' or kind == 'rank':
        f = X.reals('f', shape + (n,), -100, 100, nan=True)
        o = X.reals('o', shape, -100, 100, nan=(kind == 'rank'))
        v = X.cls('VerifyEnsemble')(f, o, ensemble_axis=len(shape), avg_axis=ax)
        X.setenv(skip_nan=skip)
        if kind == 'spread':
            got = v.spread()
            def one(*k):
                ms = [f[k + (m,)] for m in range(n)]
                if skip:
                    ms = [m for m in ms if not X.decide(X.isnan(m))]
                    return X.maxof(ms) - X.minof(ms) if ms else float('nan')
                if X.decide(X.anyof([X.isnan(m) for m in ms])): return float('nan')
                return X.maxof(ms) - X.minof(ms)
            s = X.arr(shape, one)
            X.eq(got, X.pooled(s, ax, mean), 'spread')
        else:
            got = v.rank_hist()
            X.prove(got.shape == shape, 'ranks have the observation shape')
            for k in X.np.ndindex(*shape):
                ms = [f[k + (m,)] for m in range(n)]
                miss = X.anyof([X.isnan(x) for x in ms + [o[k]]])
                X.prove(X.iff(X.isnan(got[k]), miss), 'rank missing exactly where the observation or a member is missing')
                if not X.decide(miss):
                    lo = 1 + X.count([m < o[k] for m in ms])
                    hi = 1 + X.count([m <= o[k] for m in ms])
                    X.prove(X.and_(got[k] >= lo, got[k] <= hi), 'rank within its range')
        return
    # sampled spread: a missing parameter gives missing members for its own cell only
    mu = X.reals('mu', shape, -100, 100)
    o = X.reals('o', shape, -100, 100)
    hole = X.choose(2, 'hole')
    k0 = tuple(0 for _ in shape)
    if hole:
        mu2 = X.copy(mu)
        mu2[k0] = float('nan')
    else: mu2 = mu
    v = X.cls('VerifyProbGaussian')({'mu': mu2, 'sigma': X.np.ones(shape)}, o, n_sample_members=2)
    X.setenv(skip_nan=skip)
    X.rewind()
    ens = v.prob_to_ens()
    X.rewind()
    got = v.set_avg_axis(ax).spread()
    def one(*k):
        ms = [ens[k + (m,)] for m in range(2)]
        if hole and k == k0: return float('nan')
        return X.maxof(ms) - X.minof(ms)
    X.eq(got, X.pooled(X.arr(shape, one), ax, mean), 'sampled spread')


def check_corr(X, g, fs, os_):
    n = len(fs)
    mf, mo = X.mean(fs), X.mean(os_)
    cov = X.sum([(a - mf) * (b - mo) for a, b in zip(fs, os_)])
    vf, vo = X.sum([(a - mf) * (a - mf) for a in fs]), X.sum([(b - mo) * (b - mo) for b in os_])
    X.assume(X.and_(vf >= 0.01, vo >= 0.01))
    d = X.sqrt(vf) * X.sqrt(vo)
    X.eq(g * d, cov, 'correlation of the pairs with both values')
