"""C39: a setting takes effect wherever and whenever it is given."""
from .meta import *
import importlib, sys
BOUNDS = 'slices of 2-3 samples, resamples of 1-2, 1-2 repeats, 2 members, every subset of the arguments and of the setters, every draw; symbolic data'
OUTSIDE = 'settings that only concern progress bars; kernels other than the Gaussian; parallel chunk sizes'
DEFAULTS = {'ens_to_prob_method': 'moments', 'kde_bandwidth': '0.01', 'kde_kernel': 'gaussian', 'kde_samples': '1000', 'kde_multiply_spread': '5',
            'boot_confidence': '0.95', 'boot_repeats': '1000', 'boot_samples': '300', 'tqdm_disable': 'True', 'tqdm_leave': 'False', 'tqdm_workers': '1',
            'tqdm_map_axis': '-1', 'tqdm_chunksize': '1', 'use_tensorflow_math': 'False', 'skip_nan': 'False', 'split_crps_ensemble_along_0': 'False',
            'integrate_range_multiplier': '5', 'integrate_with_less_memory': 'False', 'integrate_wdir': ''}
BOOT = [('n_samples', 'boot_samples', 2), ('repeats', 'boot_repeats', 2), ('confidence', 'boot_confidence', 0.8)]
ARGS = {'avg': BOOT, 'vec': BOOT, 'rel': BOOT[1:], 'ss': BOOT[1:], 'corr': BOOT[1:], 'decomp': BOOT[1:],
        'relnan': [('skip_nan', 'skip_nan', True)], 'relnanboot': [('skip_nan', 'skip_nan', True)], 'ssnan': [('skip_nan', 'skip_nan', True)], 'corrnan': [('skip_nan', 'skip_nan', True)], 'decompnan': [('skip_nan', 'skip_nan', True)],
        'kde': [('bandwidth', 'kde_bandwidth', 2.0), ('samples', 'kde_samples', 4), ('spread_multiplier', 'kde_multiply_spread', 2)]}
LATE = {'method': dict(ens_to_prob_method='kde'), 'bandwidth': dict(ens_to_prob_method='kde', kde_bandwidth=2.0), 'kdesamples': dict(ens_to_prob_method='kde', kde_samples=4), 'kdespread': dict(ens_to_prob_method='kde', kde_multiply_spread=2),
        'confidence': dict(boot_confidence=0.5), 'repeats': dict(boot_repeats=3), 'range': dict(integrate_range_multiplier=2), 'split': dict(split_crps_ensemble_along_0=True), 'workers': dict(tqdm_workers=2), 'skip': dict(skip_nan=True)}
SETS = {'gauss': ['set_truncation', 'set_member_clip', 'set_ensemble_members', 'set_avg_axis'], 'gauss2': ['set_move_sampled_ens_axis', 'set_ensemble_members', 'set_boot_samples'],
        'gamma': ['set_truncation', 'set_member_clip', 'set_ensemble_members'], 'hurdle': ['set_bins', 'set_integration_range', 'set_avg_axis'],
        'determ': ['set_avg_axis', 'set_boot_samples', 'disable_boot'], 'ens': ['set_avg_axis', 'set_boot_samples', 'disable_boot']}
VALUE = {'set_truncation': True, 'set_member_clip': 0.5, 'set_ensemble_members': 2, 'set_move_sampled_ens_axis': 0, 'set_avg_axis': 1, 'set_bins': 4, 'set_integration_range': (-1.0, 7.0), 'set_boot_samples': 1}
ARG = {'set_truncation': 'truncated', 'set_member_clip': 'clip_member_to_zero', 'set_ensemble_members': 'n_sample_members', 'set_move_sampled_ens_axis': 'move_sampled_ens_axis',
       'set_avg_axis': 'avg_axis', 'set_bins': 'n_approx_bins', 'set_integration_range': 'integration_range', 'set_boot_samples': 'boot_samples'}


def configs(tier):
    out = [{'name': 'import', 'params': {'what': 'import', 'kind': ''}}]
    for k in ARGS: out.append({'name': 'args-' + k, 'params': {'what': 'args', 'kind': k}, 'weight': 2})
    for k in LATE: out.append({'name': 'late-' + k, 'params': {'what': 'late', 'kind': k}})
    for k in SETS: out.append({'name': 'set-' + k, 'params': {'what': 'set', 'kind': k}, 'weight': 2})
    return out


def run(X, what, kind):
    X.setenv(boot_repeats=1, boot_samples=1, boot_confidence=0.5, kde_samples=3, kde_bandwidth=0.5)
    return {'import': imported, 'args': arguments, 'late': later, 'set': setters}[what](X, kind)


def imported(X, kind):
    import os
    keys = list(DEFAULTS)
    i = X.choose(len(keys) + 2, 'given')
    given = [] if i == len(keys) else keys if i > len(keys) else [keys[i]]
    for k in keys: os.environ.pop('pyanen_' + k, None)
    for k in given: os.environ['pyanen_' + k] = 'mine'
    X.reimport()
    for k in keys: X.prove(os.environ.get('pyanen_' + k) == ('mine' if k in given else DEFAULTS[k]), 'setting %s after the import' % k)


def arguments(X, kind):
    nan = float('nan')
    if kind in ('avg', 'vec'):
        a = X.reals('a', (2,), -100, 100)
        f = X.fn('utils_verify', 'boot_arr' if kind == 'avg' else 'boot_vec')
        call = (lambda **k: f(a, (0,), **k)) if kind == 'avg' else (lambda **k: f(a, **k))
    elif kind.startswith('rel'):
        p = X.reals('p', (3,), 0.6, 1)
        o = X.array([1.0, nan if 'nan' in kind else 0.0, 1.0])
        f = X.fn('utils_verify', 'reliability_diagram')
        call = lambda **k: f(p, o, 2, (0,), **dict({} if kind == 'relnan' else {'boot_samples': 2}, **k))[:2]
    elif kind.startswith('ss'):
        v = X.array([1.0, 2.0, 4.0])
        e = X.reals('e', (3,), 0, 100)
        if kind == 'ssnan': e = X.arr((3,), lambda i: nan if i == 1 else e[i])
        f = X.fn('utils_ss', 'binned_spread_skill')
        call = lambda **k: f(v, e, 1, (0,), boot_samples=1, **k)
    elif kind.startswith('corr'):
        a, b = X.array([1.0, 4.0, 2.5]), X.array([3.0, nan if 'nan' in kind else 1.0, 2.0])
        f = X.fn('utils_special_boot', 'corr')
        call = lambda **k: f(a, b, (0,), **dict({'n_samples': 3} if kind == 'corr' else {}, **k))
    elif kind.startswith('decomp'):
        a, b = X.array([0.12, 0.37, 0.88]), X.array([0.0, nan if 'nan' in kind else 1.0, 1.0])
        f = X.fn('utils_special_boot', 'brier_decomp')
        call = lambda **k: f(a, b, (0,), **dict({'n_samples': 1} if kind == 'decomp' else {}, **k))
    else:
        x = X.reals('x', (3,), -20, 20)
        f = X.fn('utils_verify', 'ens_to_prob_kde')
        call = lambda **k: f(X.copy(x), **k)
    give = [a for a in ARGS[kind] if len(ARGS[kind]) == 1 or X.choose(2, 'give') == 1]
    X.rewind()
    got = call(**{n: v for n, _, v in give})
    X.setenv(**{e: v for _, e, v in give})
    X.rewind()
    same(X, got, call(), 'an argument counts like the setting it replaces')


def later(X, kind):
    o = X.reals('o', (2, 1), -20, 20)
    if kind == 'skip': o = X.arr((2, 1), lambda *k: float('nan') if k[0] == 1 else o[k])
    vs = []
    f = X.reals('f', (2, 1, 2), -20, 20)
    mk = lambda boot=None: X.cls('VerifyEnsemble')(f, o, ensemble_axis=-1, avg_axis=0, boot_samples=boot)
    if kind in ('method', 'bandwidth', 'kdesamples', 'kdespread', 'workers'):
        if kind not in ('method', 'workers'): X.setenv(ens_to_prob_method='kde')
        ask = lambda v: v.cdf(below=1.5)
    elif kind == 'split': ask = lambda v: v.crps()
    elif kind == 'range':
        X.assume(o[0, 0] - o[1, 0] >= 0.5)
        d = {'pop': X.reals('pop', (2, 1), 0, 1), 'mu': X.reals('mu', (2, 1), 1, 20), 'sigma': X.reals('sigma', (2, 1), 0.5, 5)}
        mk = lambda boot=None: X.cls('VerifyProbGammaHurdle')(d, o, n_approx_bins=3, avg_axis=0)
        ask = lambda v: v.f_determ()
    elif kind == 'skip': ask = lambda v: [v.error(), v.sq_error(), v.crps()]
    else: ask = lambda v: v.set_boot_samples(2).error()
    v = mk()
    X.rewind()
    ask(v)
    X.setenv(**LATE[kind])
    X.rewind()
    got = ask(v)
    X.rewind()
    same(X, got, ask(mk()), 'settings are read when a metric is asked for')


def setters(X, kind):
    shape = (1, 1) if kind == 'gamma' else (2, 1)
    k = kind.rstrip('2')
    ms = {'determ': ['error', 'sq_error'], 'ens': ['error', 'spread'], 'gauss': ['f_determ', 'error', 'cdf', 'members'], 'gauss2': ['error', 'members', 'spread'], 'gamma': ['f_determ', 'members'], 'hurdle': ['f_determ', 'error', 'crps']}[kind]
    d, o = inputs(X, k, shape, 2, 'error')
    base = {'n_sample_members': 3} if k in ('gauss', 'gamma') else {'n_approx_bins': 3, 'integration_range': (-2.0, 24.0)} if k == 'hurdle' else {}
    name = {'determ': 'VerifyDeterm', 'ens': 'VerifyEnsemble', 'gauss': 'VerifyProbGaussian', 'gamma': 'VerifyProbGamma', 'hurdle': 'VerifyProbGammaHurdle'}[k]
    mk = lambda **a: X.cls(name)(d.get('f', d), o, **dict(base, **a))
    def ask(v):
        out = []
        for m in ms:
            X.rewind()
            out.append(v.cdf(below=1.5) if m == 'cdf' else v.prob_to_ens() if m == 'members' else getattr(v, m)())
        return out
    v = mk()
    ask(v)
    args = dict(base)
    for s in SETS[kind]:
        if X.choose(2, 'set') == 0: continue
        if s == 'disable_boot':
            r = v.disable_boot()
            args.pop('boot_samples', None)
        else:
            val = VALUE[s]
            r = getattr(v, s)(*val) if isinstance(val, tuple) else getattr(v, s)(val)
            args[ARG[s]] = val
        X.prove(r is v, 'setters return the verifier')
        if kind != 'gamma': ask(v)
    got, want = ask(v), ask(mk(**args))
    for m, a, b in zip(ms, got, want): same(X, a, b, '%s of a reconfigured verifier' % m)
