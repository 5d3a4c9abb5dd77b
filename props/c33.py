"""C33: opened data sets carry decoded names, coordinates and time units."""
import os
from .common import *
BOUNDS = 'data sets of up to 3 stations, 2 lead times, 2 test and 2 search times, 2 parameters with names of up to 4 characters and any values; every combination of present variables listed, root or group, decoding on and off; two chunk files'
OUTSIDE = 'other dimensions and encodings, name matrices of higher rank, parallel opening (needs dask), sub-second times'
ASSUMES = ['xarray and netCDF4 behave as their models (checked on real files in every run)']
EPOCH = 'seconds since 1970-01-01'
NAMES = ['T2', 'wind']


def configs(tier):
    out = []
    for group in (None, 'Analogs'):
        for decode in (False, True):
            for times in ('Times', 'test', 'both', 'none'):
                for names in ((True, False) if tier != 'quick' or times == 'test' else (group is None,)):
                    for flts in ((True, False) if tier != 'quick' or times == 'test' else (decode,)):
                        out.append({'name': 'file-%s-%s-%s%s%s' % (group or 'root', times, 'decode' if decode else 'raw', '-names' if names else '', '-flts' if flts else ''),
                                    'params': {'kind': 'file', 'group': group, 'decode': decode, 'times': times, 'names': names, 'flts': flts}})
            for times in ('test', 'Times', 'none'):
                for flts in (True, False):
                    out.append({'name': 'chunks-%s-%s-%s%s' % (group or 'root', times, 'decode' if decode else 'raw', '-flts' if flts else ''),
                                'params': {'kind': 'chunks', 'group': group, 'decode': decode, 'times': times, 'names': False, 'flts': flts}})
    for own in ('Ys', 'Xs'):
        for times in ('test', 'Times'): out.append({'name': 'chunks-%s-%s' % (own, times), 'params': {'kind': 'chunks', 'group': 'Analogs', 'decode': False, 'times': times, 'names': False, 'flts': False, 'own': own}})
    for g in (None, 'Observations'):
        out.append({'name': 'coords-%s' % g, 'params': {'kind': 'coords', 'group': g, 'decode': False, 'times': 'none', 'names': False, 'flts': False}})
    return out


def secs(X, name, n):
    """Whole seconds, increasing (real files hold them as numbers)."""
    r = [X.integer('%s%d' % (name, i), 0, 2 * 10 ** 9) for i in range(n)]
    for a, b in zip(r, r[1:]): X.assume(a < b)
    return X.array([v * 1.0 for v in r])


def check_time(X, ds, name, want, decode, coord):
    X.prove(name in ds, name + ' is present')
    X.prove((name in ds.coords) == coord or not coord, name + ' is a coordinate')
    da = ds[name]
    s = X.seconds(da)
    if decode:
        X.prove(s is not None, name + ' holds dates')
        X.eq(s, want, name + ': dates')
    else:
        X.prove(s is None, name + ' is left encoded')
        X.prove(da.attrs.get('units') == EPOCH, name + ' has the epoch unit')
        X.eq(da.values, want, name + ': values')


def run(X, kind, group, decode, times, names, flts, own=None):
    if kind == 'coords':
        n = 2
        x, y = X.reals('x', (n,), -180, 360), X.reals('y', (n,), -90, 90)
        p = os.path.join(X.tmp, 'a.nc')
        v = {'Xs': (('num_stations',), x), 'Ys': (('num_stations',), y), 'lon': (('num_stations',), y), 'lat': (('num_stations',), x), 'far': (('other',), X.array([1., 2., 3.]))}
        X.nc_files({p: {None: v} if group is None else {None: {'Xs': (('num_stations',), y)}, group: v}})
        f = X.fn('Grid', 'read_station_coordinates')
        a, b = f(p, group=group)
        X.eq(a, x, 'x coordinates')
        X.eq(b, y, 'y coordinates')
        a, b = f(p, group=group, var_x='lon', var_y='lat')
        X.eq(a, y, 'named x coordinates')
        X.eq(b, x, 'named y coordinates')
        X.refuses(lambda: f(p, group=group, var_x='far'), 'unequal numbers of coordinates')
        return
    sizes = [3] if kind == 'file' else [1, 2]
    fl = X.reals('flt', (2,), 0, 1000)
    X.assume(fl[0] < fl[1])
    ts = secs(X, 't', 2) if times in ('Times', 'both') else None
    tt = secs(X, 'tt', 2) if times in ('test', 'both') else None
    st = secs(X, 'st', 2) if times in ('test', 'both') else None
    val = [X.reals('v%d' % i, (2, m), -50, 50) for i, m in enumerate(sizes)]
    loc = [X.reals('x%d' % i, (m,), -180, 360) for i, m in enumerate(sizes)]
    tdim = {'Times': 'num_times', 'test': 'num_test_times', 'both': 'num_test_times', 'none': 'num_flts'}[times]
    files = {}
    for i, m in enumerate(sizes):
        root = {'Xs': (('num_stations',), loc[i]), 'Ys': (('num_stations',), -loc[i])}
        if flts or kind == 'chunks': root['FLTs'] = (('num_flts',), fl)
        here = {'value': ((tdim, 'num_stations'), val[i])}
        if times != 'none': here['lead'] = (('num_flts',), fl + 1)
        if ts is not None: here['Times'] = (('num_times',), ts)
        if st is not None: here['search_times'] = (('num_search_times',), st)
        if tt is not None:
            root['test_times'] = (('num_test_times',), tt)
            if kind == 'file': here['test_times'] = (('num_test_times',), tt)
        if flts: here['FLTs'] = (('num_flts',), fl)
        if kind == 'file': here['Xs'] = (('num_stations',), loc[i])
        if own: here[own] = root[own]
        if names:
            here['ParameterNames'] = (('num_parameters', 'num_chars'), X.np.array([[c.encode() for c in s.ljust(5, '\0')] for s in NAMES]) if not X.symbolic else name_matrix())
            here['weight'] = (('num_parameters',), X.array([1., 2.]))
        g = {None: dict(root, **here)} if group is None else {None: root, group: here}
        files[os.path.join(X.tmp, 'Rank%d.nc' % (2 + 8 * i))] = g
    X.nc_files(files)
    if kind == 'file':
        ds = X.fn('IO', 'open_dataset')(list(files)[0], group=group, decode=decode)
    else:
        # ranks 2 and 10: the alphabetical order of the files is not the order of the ranks
        ds = X.fn('IO', 'open_mfdataset')(os.path.join(X.tmp, '*.nc') if flts else list(files), group=group, decode=decode, parallel=False)
    if flts or kind == 'chunks':
        X.prove('num_flts' in ds.coords, 'lead times are a coordinate')
        X.eq(ds['num_flts'].values, fl, 'lead times')
    else: X.prove('num_flts' not in ds.coords, 'no lead times to attach')
    if names:
        X.prove(list(map(str, ds['ParameterNames'].values)) == NAMES, 'names are decoded')
        X.prove('num_parameters' in ds.coords and list(map(str, ds['num_parameters'].values)) == NAMES, 'names label the parameters')
        X.eq(ds['weight'].values, X.array([1., 2.]), 'values of parameters')
    if times == 'Times':
        check_time(X, ds, 'Times', ts, decode, False)
        if kind == 'file': check_time(X, ds, 'num_times', ts, decode, True)
    if times == 'test':
        X.prove('num_test_times' not in ds.dims and 'num_times' in ds.dims, 'test times appear under the common time dimension')
        check_time(X, ds, 'num_times', tt, decode, True)
        check_time(X, ds, 'search_times', st, decode, False)
        if kind == 'file':
            check_time(X, ds, 'test_times', tt, decode, False)
            X.prove('num_search_times' in ds.coords, 'search times are a coordinate')
    if times == 'both':
        X.prove('num_test_times' in ds.dims and 'num_times' in ds.dims, 'two time dimensions stay apart')
        check_time(X, ds, 'num_times', ts, decode, True)
        check_time(X, ds, 'num_test_times', tt, decode, True)
        check_time(X, ds, 'search_times', st, decode, False)
    X.eq(ds['value'].values, X.np.concatenate(val, axis=1), 'values')
    X.prove(tuple(ds['value'].dims) == ('num_times' if times == 'test' else tdim, 'num_stations'), 'dimensions of the values')
    X.eq(ds['Xs'].values, X.np.concatenate(loc), 'station locations')
    if kind == 'chunks': X.eq(ds['Ys'].values, -X.np.concatenate(loc), 'station locations')


def name_matrix():
    import numpy as np
    return np.array([[c.encode() for c in s.ljust(5, '\0')] for s in NAMES])
