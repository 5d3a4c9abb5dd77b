"""C32: station indices order chunk files by rank without overlap."""
import os
from .common import *
BOUNDS = 'two or three chunk files with any distinct ranks up to 2*10^7 and 1-4 stations each (two chunks also of 1200 to 1500, thorough 20000, stations), opened from the root or a group; file names with and without zero padding, with other digits around the rank, in one or several directories'
OUTSIDE = 'other dimension names, parallel opening (needs dask), floating-point resolution of the indices at ranks above 10^7'
ASSUMES = ['data sets are combined by their coordinates as xarray does (model checked on real files in every run)']
DIRS = ['', 'Rank5', 'run_Rank0012']


def configs(tier):
    out = []
    sizes = [(1, 1), (2, 3), (3, 1), (4, 2)] if tier == 'quick' else [(i, j) for i in range(1, 6) for j in range(1, 6)] + [(1, 2, 3), (3, 3, 1)]
    for sz in sizes:
        for style in ('plain', 'padded', 'digits', 'dirs'):
            for group in (None, 'Analogs'):
                if tier == 'quick' and (group is None) != (style in ('plain', 'dirs')): continue
                out.append({'name': '%s-%s-%s' % (name(sz), style, group or 'root'), 'params': {'kind': 'pair', 'sizes': list(sz), 'style': style, 'group': group}})
    for r in ((0, 1), (9, 10), (2, 10), (99, 100), (7, 107), (100, 1000), (8, 12), (1234, 12345)):
        out.append({'name': 'ranks-%d-%d' % r, 'params': {'kind': 'ranks', 'sizes': [2, 3], 'style': list(r), 'group': None}})
    for sz in ((1200, 3), (2, 1500)) if tier == 'quick' else ((1200, 3), (2, 1500), (5000, 5000), (11, 20000)):
        out.append({'name': 'large-%s' % name(sz), 'params': {'kind': 'large', 'sizes': list(sz), 'style': 'plain', 'group': None}})
    for style in ('norank', 'rankdir', 'nodim', 'emptyrank'):
        for n in (1, 2): out.append({'name': '%s-%d' % (style, n), 'params': {'kind': 'refuse', 'sizes': [2] * n, 'style': style, 'group': None}})
    return out


def fname(X, r, style, i):
    if style == 'plain': return 'AnEn_Rank%s.nc' % X.digits(r)
    if style == 'padded': return 'AnEn_Rank%s.nc' % X.digits(r, 8)
    if style == 'digits': return '2019-10_domain3_Rank%s_v2.nc' % X.digits(r)
    return os.path.join(DIRS[i], 'anen-Rank%s' % X.digits(r))


def run(X, kind, sizes, style, group):
    opener = X.fn('IO', 'open_mfdataset')
    n = len(sizes)
    if kind == 'large': xs = [[0.25 * j + i for j in range(m)] for i, m in enumerate(sizes)]
    else: xs = [[X.real('x%d_%d' % (i, j), -180, 360) for j in range(m)] for i, m in enumerate(sizes)]
    dim = 'num_points' if style == 'nodim' else 'num_stations'
    def files(names):
        f = {}
        for i, m in enumerate(sizes):
            v = {'Xs': ((dim,), X.array(xs[i])), 'Ys': ((dim,), X.array(xs[i]))}
            g = {None: v}
            if group: g[group] = {'value': (('num_parameters', dim), X.array(xs[i] + xs[i], (2, m)))}
            f[os.path.join(X.tmp, names[i])] = g
        return f
    if kind == 'refuse':
        names = {'norank': ['a3.nc', 'b7.nc'], 'rankdir': ['Rank1/a.nc', 'Rank2/b.nc'], 'nodim': ['Rank1.nc', 'Rank2.nc'], 'emptyrank': ['Rank.nc', 'Rank_2.nc']}[style][:n]
        fs = files(names)
        X.nc_files(fs)
        X.refuses(lambda: opener(list(fs), group=group, parallel=False), 'refused')
        return
    if kind == 'ranks': rs = list(style)
    else:
        # the smallest rank and the gaps to the next ones, assigned to the files in any order
        rank = [X.integer('r0', 0, 10 ** (7 if kind != 'large' else 4))]
        for i in range(1, n): rank.append(rank[-1] + X.integer('gap%d' % i, 1, 10 ** 7 // n))
        rs, left = [], list(rank)
        for i in range(n): rs.append(left.pop(X.choose(len(left), 'order')))
    fs = files([fname(X, rs[i], 'plain' if kind == 'ranks' else style, i) for i in range(n)])
    X.nc_files(fs)
    ds = opener(list(fs), group=group, parallel=False)
    X.prove('num_stations' in ds.coords, 'stations have an index')
    c = ds['num_stations'].values
    x = ds['Xs'].values
    tot = sum(sizes)
    X.prove(len(c) == tot and len(x) == tot, 'all stations are kept')
    # order of the chunks by rank
    order = list(range(n))
    for i in range(n):
        for j in range(n - 1):
            if X.decide(rs[order[j]] > rs[order[j + 1]]): order[j], order[j + 1] = order[j + 1], order[j]
    if kind == 'large':
        i, j = order
        m = sizes[i]
        X.prove(X.and_(c[0] >= rs[i], c[tot - 1] < rs[j] + 1), 'index within [rank, rank + 1)')
        X.prove(X.and_(c[m - 1] < rs[i] + 1, c[m] >= rs[j]), 'chunks do not overlap')
        step = max(1, tot // 40)
        for a in sorted(set(range(0, tot - 1, step)) | {m - 2, m - 1, m, tot - 2}):
            if 0 <= a < tot - 1: X.prove(c[a] < c[a + 1], 'indices increase')
        for a in (0, 1, m - 1, m, tot - 1): X.eq(x[a], (xs[i] + xs[j])[a], 'stations in the order of ranks, as stored in each file')
        return
    k = 0
    for i in order:
        for j in range(sizes[i]):
            X.prove(X.and_(c[k] >= rs[i], c[k] < rs[i] + 1), 'index within [rank, rank + 1)')
            if k: X.prove(c[k - 1] < c[k], 'indices increase')
            X.eq(x[k], xs[i][j], 'stations in the order of ranks, as stored in each file')
            if group: X.eq(ds['value'].values[:, k], X.array([(xs[i] + xs[i])[j], (xs[i] + xs[i])[sizes[i] + j]]), 'values stay with their station')
            k += 1
