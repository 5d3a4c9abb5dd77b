"""C24: saving intermediate results never changes any answer."""
from .common import *
BOUNDS = ('histories of up to three calls of a metric with two symbolic thresholds (scalars, arrays of the observations\' shape, pairs) or bin counts, over or below, '
          'with or without changes of the averaging axes and of the bootstrap in between, and of all metrics of a verifier in two orders, on one verifier and across a second one that reuses the directory; '
          'two observations (shape (2,) or (2, 2) when axes change), two members, symbolic observations and thresholds')
OUTSIDE = 'longer histories, larger arrays, thresholds that differ by less than the precision of their text; other setters while reusing a directory; custom names shared between metrics'
ASSUMES = ['text of numbers: equal exactly when the numbers are equal (numpy array text: closer than 1e-10)']

KINDS = {
    'determ': ['error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'corr', 'iou_determ'],
    'ens': ['error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'variance', 'spread', 'crps', 'rank_hist', 'cdf', 'brier', 'roc', 'sharpness', 'reliability', 'iou_determ', 'iou_prob', 'binned_spread_skill'],
    'gauss': ['error', 'sq_error', 'ab_error', 'f_determ', 'variance', 'crps', 'rank_hist', 'pit', 'spread', 'prob_to_ens', 'cdf', 'brier', 'sharpness', 'iou_determ', 'iou_prob', 'binned_spread_skill'],
    'hurdle': ['error', 'f_determ', 'variance', 'cdf', 'brier', 'sharpness', 'iou_determ'],
}
N = (None, None)
THR = {'cdf', 'brier', 'roc', 'sharpness', 'reliability', 'iou_determ'}
# thresholds and bin counts whose texts look alike
LOOK = [('cdf', [{'below': 2.0}, {'below': -2.0}, {'over': 2.0}, {'over': -2.0}]), ('cdf', [{'below': 1.5}, {'below': 15.0}, {'below': 0.15}, {'below': 1.25}]),
        ('cdf', [{'below': 2}, {'below': 2.5}, {'below': 2.05}, {'below': 20}]), ('brier', [{'over': 1.4}, {'over': 1.42}, {'over': 1.4000001}, {'below': 1.4}]),
        ('cdf', [{'below': 1e-5}, {'below': 1e5}, {'below': -1e-5}, {'below': 1e-15}]), ('brier', [{'below': 1}, {'below': 11}, {'over': 1}, {'below': -1}]),
        ('cdf', [{'below': [1.5, 2.5]}, {'below': [1.5, -2.5]}, {'below': [2.5, 1.5]}, {'below': 1.5}]), ('cdf', [{'below': [1.0, 12.0]}, {'below': [11.0, 2.0]}, {'over': [1.0, 12.0]}]),
        ('iou_prob', [{'over': (0.5, 0.9), 'below': N}, {'over': (0.9, 0.5), 'below': N}, {'below': (0.5, 0.9), 'over': N}, {'over': (-0.5, 0.9), 'below': N}]),
        ('iou_determ', [{'over': 2.0}, {'over': -2.0}, {'below': 2.0}, {'below': 2.5}]),
        ('reliability', [{'over': 1.5, 'nbins': 1}, {'over': 1.5, 'nbins': 11}, {'over': 11.5, 'nbins': 1}, {'below': 1.5, 'nbins': 1}, {'over': -1.5, 'nbins': 1}])]
# reconfigurations of a verifier that started from scratch: (setter, arguments, the constructor's arguments from then on)
SETTERS = {
    'ens': [[('set_avg_axis', [(0,)], {'avg_axis': (0,)}), ('set_collapse_func', ['max'], {'ensemble_collapse_func': 'max'}), ('set_ensemble_axis', [0], {'ensemble_axis': 0})],
            [('set_collapse_func', ['min'], {'ensemble_collapse_func': 'min'}), ('set_ensemble_axis', [0], {'ensemble_axis': 0}), ('set_collapse_func', ['max'], {'ensemble_collapse_func': 'max'}), ('set_ensemble_axis', [1], {'ensemble_axis': 1})],
            [('set_boot_samples', [2], {'boot_samples': 2}), ('disable_boot', [], {'boot_samples': None}), ('set_ensemble_axis', [0], {'ensemble_axis': 0})]],
    'gauss': [[('set_truncation', [True], {'truncated': True}), ('set_ensemble_members', [2], {'n_sample_members': 2}), ('set_truncation', [False], {'truncated': False})],
              [('set_ensemble_members', [1], {'n_sample_members': 1}), ('set_ensemble_members', [2], {'n_sample_members': 2}), ('set_move_sampled_ens_axis', [0], {'move_sampled_ens_axis': 0})],
              [('set_avg_axis', [(0,)], {'avg_axis': (0,)}), ('set_member_clip', [1.5], {'clip_member_to_zero': 1.5}), ('set_truncation', [True], {'truncated': True})]],
    'hurdle': [[('set_bins', [3], {'n_approx_bins': 3}), ('set_integration_range', [0.5, 5.0], {'integration_range': (0.5, 5.0)}), ('set_bins', [2], {'n_approx_bins': 2})],
               [('set_avg_axis', [(0,)], {'avg_axis': (0,)}), ('set_integration_range', [1.0, 6.0], {'integration_range': (1.0, 6.0)})]],
}
ASKED = {'ens': ['error', 'f_determ', 'spread', 'cdf', 'crps', 'iou_determ'], 'gauss': ['cdf', 'brier', 'error', 'prob_to_ens', 'pit'], 'hurdle': ['f_determ', 'variance', 'error']}
SAVED_ONLY_NAMED = {'corr', 'brier_decomp'}


def configs(tier):
    out = []
    for kind, ms in KINDS.items():
        for m in ms + (['brier_decomp'] if kind in ('ens', 'gauss') else []):
            if m in THR or m in ('iou_prob', 'brier_decomp'):
                if kind == 'hurdle' and m not in ('cdf', 'brier'): continue
                for seq in ('sts', 'ob', 'arr'):
                    if m == 'iou_prob' and seq == 'arr': continue
                    if tier == 'quick' and (kind == 'gauss' and m == 'brier_decomp' or m == 'reliability' and seq != 'sts'): continue
                    if seq == 'arr' and (m == 'brier_decomp' or tier == 'quick' and m == 'roc' or tier == 'quick' and kind != 'ens' and m in ('sharpness', 'roc', 'reliability')): continue
                    for re in (False, True):
                        if tier == 'quick' and re and seq != 'sts': continue
                        out.append({'name': 'thr-%s-%s-%s%s' % (kind, m, seq, '-reopen' if re else ''), 'params': {'mode': 'thr', 'kind': kind, 'm': m, 'seq': seq, 're': re}, 'validate': 1, 'weight': 2})
            if m in ('reliability', 'binned_spread_skill'):
                for re in (False, True): out.append({'name': 'bins-%s-%s%s' % (kind, m, '-reopen' if re else ''), 'params': {'mode': 'bins', 'kind': kind, 'm': m, 'seq': '', 're': re}, 'validate': 1})
            if m in ('f_determ', 'variance', 'cdf', 'sharpness', 'roc', 'pit', 'rank_hist', 'prob_to_ens'): continue
            for what in ('axis', 'boot'):
                if what == 'boot' and kind == 'gauss' and m == 'spread': continue     # two kinds of draws interleave
                if kind == 'hurdle' or (what == 'boot' and m in ('iou_determ', 'iou_prob') and tier == 'quick'): continue
                for re in (False, True):
                    if tier == 'quick' and not re and kind != 'ens': continue
                    out.append({'name': '%s-%s-%s%s' % (what, kind, m, '-reopen' if re else ''), 'params': {'mode': what, 'kind': kind, 'm': m, 'seq': '', 're': re}, 'validate': 1, 'weight': 2})
        for re in (False, True):
            for i in range(len(LOOK)):
                if kind == 'gauss': out.append({'name': 'look-%d%s' % (i, '-reopen' if re else ''), 'params': {'mode': 'look', 'kind': kind, 'm': 'cdf', 'seq': i, 're': re}, 'validate': 1})
        if kind in SETTERS:
            for i in range(len(SETTERS[kind])): out.append({'name': 'setters-%s-%d' % (kind, i), 'params': {'mode': 'setters', 'kind': kind, 'm': '', 'seq': i, 're': False}, 'validate': 1, 'weight': 2})
        for re in (False, True): out.append({'name': 'all-%s%s' % (kind, '-reopen' if re else ''), 'params': {'mode': 'all', 'kind': kind, 'm': '', 'seq': '', 're': re}, 'validate': 1})
    return out


def data(X, kind, shape):
    n = 1
    for s in shape: n *= s
    o = X.reals('o', shape, 0.5, 4)
    base = [1.25, 2.75, 0.75, 3.5]
    b = X.array(base[:n], shape)
    if kind == 'determ': return (X.reals('f', shape, 0.5, 4), o), {}
    if kind == 'ens': return (X.arr(shape + (2,), lambda *k: b[k[:-1]] + (k[-1] * 0.5 + 0.125)), o), {'ensemble_axis': -1}
    if kind == 'gauss': return ({'mu': b, 'sigma': X.array([1.0, 0.5, 2.0, 0.75][:n], shape)}, o), {}
    return ({'pop': X.array([0.5, 0.75, 0.25, 0.5][:n], shape), 'mu': b, 'sigma': X.array([1.0, 0.5, 2.0, 0.75][:n], shape)}, o), {'n_approx_bins': 2, 'integration_range': (0.0, 4.0)}


CLS = {'determ': 'VerifyDeterm', 'ens': 'VerifyEnsemble', 'gauss': 'VerifyProbGaussian', 'hurdle': 'VerifyProbGammaHurdle'}


def run(X, mode, kind, m, seq, re):
    X.names_matter()
    X.setenv(boot_repeats=2, boot_samples=2)
    shape = (2, 2) if mode == 'axis' else (2,)
    if mode == 'axis' and m in ('corr', 'brier_decomp', 'iou_determ', 'iou_prob', 'reliability', 'binned_spread_skill'): shape = (2, 2)
    (f, o), kw = data(X, kind, shape)
    if kind == 'determ' and m == 'corr' or mode == 'all' and kind == 'determ':
        for z in (f, o): X.assume(z.ravel()[0] - z.ravel()[1] >= 0.25)
        if mode != 'all':
            for z in (f, o):
                c = z.ravel()
                for i in range(2, len(c), 2): X.assume(c[i] - c[i + 1] >= 0.25)
                if len(c) == 4: X.assume(X.and_(c[0] - c[2] >= 0.25, c[1] - c[3] >= 0.25))
    d = X.tmp + '/saved'
    cls = X.cls(CLS[kind])
    nm = 2 if kind == 'gauss' and (mode == 'all' or m in ('spread', 'prob_to_ens', 'rank_hist')) else None
    if nm: kw = dict(kw, n_sample_members=nm)
    state = {'avg_axis': tuple(range(len(shape))) if mode == 'bins' or m in ('reliability', 'binned_spread_skill') or mode == 'all' else None, 'boot_samples': None}
    make = lambda **k: cls(f, o, **dict(kw, avg_axis=state['avg_axis'], boot_samples=state['boot_samples'], **k))
    v = make(working_directory=d, start_from_scratch=True)
    if mode in ('axis', 'boot') and not re: v = make(working_directory=d, start_from_scratch=False)
    fresh = [False]

    def call(m, **a):
        """The saving verifier against one that does not save."""
        if m in SAVED_ONLY_NAMED: a['save_name'] = 'kept'
        X.rewind()
        got = getattr(v, m)(**a)
        X.rewind()
        if 'save_name' in a: a['save_name'] = None
        want = getattr(make(), m)(**a)
        same(X, got, want, m + ' with saving')

    if mode == 'all':
        s, p = 1.5, 0.5
        arg = lambda m: {'over': s} if m in THR else {'over': (s, p), 'below': N} if m == 'iou_prob' else {}
        arg2 = lambda m: dict(arg(m), nbins=2) if m in ('reliability', 'binned_spread_skill') else arg(m)
        for q in KINDS[kind]: call(q, **arg2(q))
        if re: v = make(working_directory=d, start_from_scratch=False)
        for q in reversed(KINDS[kind]): call(q, **arg2(q))
        return
    if mode == 'look':
        m, calls = LOOK[seq]
        if m == 'reliability': state['avg_axis'] = (0,)
        v = make(working_directory=d, start_from_scratch=True)
        for i, a in enumerate(calls + calls[:1]):
            if re and i: v = make(working_directory=d, start_from_scratch=False)
            call(m, **dict((k, X.array(t, shape) if isinstance(t, list) else t) for k, t in a.items()))
        return
    if mode == 'setters':
        kw = dict(kw)
        if kind == 'gauss': kw['n_sample_members'] = 3
        def ask():
            for q in ASKED[kind]: call(q, **({'below': 1.5} if q in THR else {}))
        del state['avg_axis'], state['boot_samples']
        kw.update(avg_axis=None, boot_samples=None)
        make = lambda **k: cls(f, o, **dict(kw, **k))
        v = make(working_directory=d)
        ask()
        for name_, args, now in SETTERS[kind][seq]:
            args, now = [getattr(X.np, a) if isinstance(a, str) else a for a in args], dict((k, getattr(X.np, a) if isinstance(a, str) else a) for k, a in now.items())
            getattr(v, name_)(*args)
            kw.update(now)
            ask()
        return
    thr = {}
    if mode == 'thr':
        lo, hi = 0.25, 5
        if seq == 'arr': s, t = X.reals('s', shape, lo, hi), X.reals('t', shape, lo, hi)
        else: s, t = X.real('s', lo, hi), X.real('t', lo, hi)
        if m == 'iou_prob':
            p, q = X.real('p', 0.05, 0.95), X.real('q', 0.05, 0.95)
            calls = [{'over': (s, p), 'below': N}, {'over': (t, p), 'below': N}, {'over': (s, q), 'below': N}] if seq == 'sts' else [{'over': (s, p), 'below': N}, {'below': (s, p), 'over': N}, {'below': [t, p], 'over': N}]
        elif seq == 'ob': calls = [{'over': s}, {'below': s}, {'below': t}]
        else: calls = [{'over': s}, {'over': t}, {'over': s}]
        if m == 'reliability': calls = [dict(c, nbins=2) for c in calls]
        for i, a in enumerate(calls):
            if re and i: v = make(working_directory=d, start_from_scratch=False)
            call(m, **a)
        return
    base = {'over': 1.5} if m in THR | {'brier_decomp'} else {'over': (1.5, 0.5), 'below': N} if m == 'iou_prob' else {}
    if m in ('reliability', 'binned_spread_skill') and mode != 'bins': base['nbins'] = 2
    if mode == 'bins':
        for i, nb in enumerate((2, 1, 2)):
            if re and i: v = make(working_directory=d, start_from_scratch=False)
            call(m, nbins=nb, **base)
        return
    if mode == 'axis':
        every = tuple(range(len(shape)))
        hist = [(0,), (1,), every, (0,)] if m not in ('corr', 'brier_decomp') else [(0,), (1,), (0,)]
        for i, ax in enumerate(hist):
            state['avg_axis'] = ax
            if re: v = make(working_directory=d, start_from_scratch=False)
            else: v.set_avg_axis(ax)
            call(m, **base)
        return
    state['avg_axis'] = (0,)
    if re: v = make(working_directory=d, start_from_scratch=False)
    else: v.set_avg_axis((0,))
    for i, b in enumerate((None, 2, None)):
        state['boot_samples'] = b
        if re: v = make(working_directory=d, start_from_scratch=False)
        else: v.set_boot_samples(b)
        call(m, **base)
