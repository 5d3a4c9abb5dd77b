"""C26: a crash while saving never corrupts a later run."""
from .common import *
BOUNDS = 'process death before, in the middle of (half of the data, all but its last byte) or after any of the first 12 file operations (open, write, replace, rename, remove, link) of a first run, and of a second one (first 6); symbolic observations and thresholds, shape (2,)'
OUTSIDE = 'loss of completed operations by the file system; two processes saving at the same time; death while the directory is being emptied'
ASSUMES = ['completed file operations survive the death of the process']
from . import c24

OPS = {'determ': ['error', 'sq_error', 'ab_error', 'f_determ', 'corr', 'iou_determ'],
       'ens': ['brier', 'reliability', 'roc', 'rank_hist', 'crps', 'binned_spread_skill', 'cdf', 'spread', 'variance', 'iou_prob', 'sharpness', 'brier_decomp'],
       'gauss': ['cdf', 'brier', 'crps', 'pit', 'variance', 'spread', 'prob_to_ens', 'rank_hist'], 'hurdle': ['cdf', 'variance', 'brier']}


def configs(tier):
    out = []
    for kind, ms in OPS.items():
        for m in ms:
            for runs in (1, 2):
                if runs == 2 and tier == 'quick' and m not in ('error', 'brier', 'cdf', 'pit'): continue
                out.append({'name': '%s-%s-%d' % (kind, m, runs), 'params': {'kind': kind, 'm': m, 'runs': runs}, 'weight': 2})
    return out


def run(X, kind, m, runs):
    (f, o), kw = c24.data(X, kind, (2,))
    if m in ('spread', 'prob_to_ens') and kind == 'gauss': kw['n_sample_members'] = 2
    if m == 'corr':
        for z in (f, o): X.assume(z[0] - z[1] >= 0.25)
    cls = X.cls(c24.CLS[kind])
    d = X.tmp + '/saved'
    ax = (0,) if m in ('reliability', 'binned_spread_skill') else None
    make = lambda **k: cls(f, o, **dict(kw, avg_axis=ax, **k))
    a = {}
    if m in c24.THR | {'brier_decomp'}: a['over'] = 1.5
    if m == 'iou_prob': a = {'over': (1.5, 0.5), 'below': c24.N}
    saved = {'save_name': 'kept'} if m in c24.SAVED_ONLY_NAMED else {}
    if m in ('reliability', 'binned_spread_skill'): a['nbins'] = 2
    def once(v):
        X.rewind()
        return getattr(v, m)(**dict(a, **saved))
    want = once(make())
    for i in range(runs):
        X.dies(lambda: once(make(working_directory=d, start_from_scratch=False)), 12 if i == 0 else 6)
    v = make(working_directory=d, start_from_scratch=False)
    same(X, once(v), want, m + ' after a crash')
    same(X, once(v), want, m + ' again after a crash')
