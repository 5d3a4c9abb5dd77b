"""A model of the parts of xarray and netCDF4 that the package uses, over symbolic arrays: data sets with dimensions, variables,
coordinates and attributes; opening files of a registry; combination of data sets by their coordinates; decoding of epoch times.
Checked against the real libraries, on real files, by the replays of every run."""
import os
import numpy as np
from . import core as C
from . import arr as A
from . import npx
from .core import Gap

EPOCH = 'seconds since 1970-01-01'


def _data(v):
    if isinstance(v, Masked): v = v.data
    if isinstance(v, DataArray): v = v.data
    if isinstance(v, np.ndarray) and v.dtype.kind in 'SU' : return v
    v = list(v) if isinstance(v, (tuple, range)) else v
    if isinstance(v, list) and v and all(isinstance(x, (str, bytes)) for x in v): return np.array(v)
    return A.sa(v)


class Var:
    def __init__(self, dims, data, attrs=None, dates=False):
        self.dims = (dims,) if isinstance(dims, str) else tuple(dims)
        self.data = _data(data)
        self.attrs = dict(attrs or {})
        self.dates = dates
        if len(self.dims) != self.data.ndim: raise ValueError('dimensions %s must have the same length as the number of data dimensions' % (self.dims,))
    def copy(self): return Var(self.dims, self.data, self.attrs, self.dates)


class DataArray:
    def __init__(self, name, var, ds=None):
        self.name, self._v, self._ds = name, var, ds
    dims = property(lambda s: s._v.dims)
    shape = property(lambda s: s._v.data.shape)
    ndim = property(lambda s: s._v.data.ndim)
    size = property(lambda s: s._v.data.size)
    dtype = property(lambda s: s._v.data.dtype)
    sizes = property(lambda s: dict(zip(s._v.dims, s._v.data.shape)))
    data = property(lambda s: s._v.data)
    attrs = property(lambda s: s._v.attrs)
    @property
    def values(self): return self._v.data
    def to_numpy(self): return self._v.data
    def __len__(self): return len(self._v.data)
    def __iter__(self): return iter(self._v.data)
    def __array__(self, *a, **k): return self._v.data
    def assign_attrs(self, *a, **k):
        v = self._v.copy()
        for d in a: v.attrs.update(d)
        v.attrs.update(k)
        return DataArray(self.name, v, self._ds)
    def astype(self, t):
        v = self._v.copy()
        v.data = v.data.astype(t)
        return DataArray(self.name, v, self._ds)
    def copy(self, *a, **k): return DataArray(self.name, self._v.copy(), self._ds)
    @property
    def coords(self):
        return {n: DataArray(n, w) for n, w in self._ds._vars.items() if n in self._ds._coords and set(w.dims) <= set(self.dims)} if self._ds else {}
    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)) and self.ndim == 1: return self._v.data[k]
        raise Gap('indexing a data array')
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Gap('DataArray.' + n)


class Coords:
    def __init__(self, ds): self.ds = ds
    def __contains__(self, k): return k in self.ds._coords
    def __iter__(self): return iter([n for n in self.ds._vars if n in self.ds._coords])
    def __len__(self): return len(list(iter(self)))
    def __getitem__(self, k):
        if k not in self.ds._coords: raise KeyError(k)
        return self.ds[k]
    def __setitem__(self, k, v): self.ds._set(k, v, coord=True)
    def update(self, d):
        for k, v in d.items(): self[k] = v
    def keys(self): return list(iter(self))
    def items(self): return [(k, self[k]) for k in self]
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Gap('coords.' + n)


class Dataset:
    def __init__(self, vars=None, coords=(), source=None, attrs=None):
        self._vars = {}
        self._coords = set(coords)
        self.encoding = {'source': source} if source is not None else {}
        self.attrs = dict(attrs or {})
        for n, v in (vars or {}).items(): self._vars[n] = v
        for n, v in self._vars.items():
            if v.dims == (n,): self._coords.add(n)
        self.sizes
    def _copy(self):
        d = Dataset({n: v.copy() for n, v in self._vars.items()}, self._coords, attrs=self.attrs)
        d.encoding = dict(self.encoding)
        return d
    copy = lambda self, *a, **k: self._copy()
    @property
    def sizes(self):
        r = {}
        for n, v in self._vars.items():
            for d, s in zip(v.dims, v.data.shape):
                if r.setdefault(d, s) != s: raise ValueError('conflicting sizes for dimension %r: length %d on %r and length %d' % (d, s, n, r[d]))
        return r
    dims = property(lambda s: s.sizes)
    variables = property(lambda s: dict(s._vars))
    data_vars = property(lambda s: {n: s[n] for n in s._vars if n not in s._coords})
    @property
    def coords(self): return Coords(self)
    def __contains__(self, k): return k in self._vars
    def __iter__(self): return iter([n for n in self._vars if n not in self._coords])
    def __len__(self): return len(list(iter(self)))
    def keys(self): return list(iter(self))
    def __getitem__(self, k):
        if not isinstance(k, str): raise Gap('selecting from a data set')
        if k in self._vars: return DataArray(k, self._vars[k].copy(), self)
        if k in self.sizes: return DataArray(k, Var((k,), np.arange(self.sizes[k])), self)
        raise KeyError('No variable named %r' % k)
    def _var(self, k, v):
        if isinstance(v, DataArray): return v._v.copy()
        if isinstance(v, Var): return v.copy()
        if isinstance(v, tuple):
            if len(v) not in (2, 3): raise Gap('variable tuple')
            return Var(v[0], v[1], v[2] if len(v) > 2 else None)
        d = _data(v)
        if d.ndim == 0: return Var((), d)
        if d.ndim == 1: return Var((k,), d)
        raise ValueError('Could not convert tuple into variable')
    def _set(self, k, v, coord=False):
        w = self._var(k, v)
        old = self._vars.get(k), k in self._coords
        self._vars[k] = w
        if coord or w.dims == (k,): self._coords.add(k)
        try: self.sizes
        except ValueError:
            if old[0] is None: self._vars.pop(k); self._coords.discard(k)
            else: self._vars[k] = old[0]
            raise
    def __setitem__(self, k, v):
        if not isinstance(k, str): raise Gap('assigning to a data set')
        self._set(k, v)
    def assign(self, *a, **k):
        d = self._copy()
        for m in a + (k,):
            for n, v in m.items(): d._set(n, v(d) if callable(v) else v)
        return d
    def assign_coords(self, *a, **k):
        d = self._copy()
        for m in a + (k,):
            for n, v in m.items(): d._set(n, v(d) if callable(v) else v, coord=True)
        return d
    def assign_attrs(self, *a, **k):
        d = self._copy()
        for m in a + (k,): d.attrs.update(m)
        return d
    def set_coords(self, names):
        d = self._copy()
        for n in [names] if isinstance(names, str) else names:
            if n not in d._vars: raise ValueError(n)
            d._coords.add(n)
        return d
    def drop_vars(self, names, errors='raise'):
        d = self._copy()
        for n in [names] if isinstance(names, str) else names:
            if n in d._vars: d._vars.pop(n); d._coords.discard(n)
            elif errors == 'raise': raise ValueError(n)
        return d
    def rename(self, m=None, **k):
        m = dict(m or {}, **k)
        known = set(self._vars) | set(self.sizes)
        for a, b in m.items():
            if a not in known: raise ValueError('cannot rename %r because it is not a variable or dimension in this dataset' % a)
            if b in known and b not in m: raise ValueError('the new name %r conflicts' % b)
        f = lambda n: m.get(n, n)
        d = Dataset({f(n): Var([f(x) for x in v.dims], v.data, v.attrs, v.dates) for n, v in self._vars.items()}, {f(n) for n in self._coords}, attrs=self.attrs)
        d.encoding = dict(self.encoding)
        return d
    rename_dims = rename_vars = None
    def load(self): return self
    compute = load
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return None
    def __repr__(self): return '<Dataset %s>' % list(self._vars)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if n in self.__dict__.get('_vars', {}): return self[n]
        raise Gap('Dataset.' + n)


Dataset.rename_dims = Dataset.rename_vars = property(lambda s: (_ for _ in ()).throw(Gap('rename_dims')))


class Masked:
    """What indexing a netCDF4 variable gives: a masked array without missing values."""
    def __init__(self, d): self._d = d
    data = property(lambda s: s._d)
    def filled(self, *a): return self._d
    def __array__(self, *a, **k): return self._d
    def __len__(self): return len(self._d)
    def __getitem__(self, k): return self._d[k]
    def __iter__(self): return iter(self._d)


class NcVar:
    def __init__(self, v): self._v, self.dimensions, self.shape = v, v.dims, v.data.shape
    def __getitem__(self, k): return Masked(self._v.data[k])
    def __array__(self, *a, **k): return self._v.data
    def __len__(self): return len(self._v.data)


def concat(sets, dim):
    out = {}
    for n, v in sets[0]._vars.items():
        if dim in v.dims:
            ax = v.dims.index(dim)
            parts = [s._vars[n].data for s in sets if n in s._vars]
            if len(parts) != len(sets): raise ValueError('%r is not present in all datasets.' % n)
            d = np.concatenate(parts, axis=ax) if parts[0].dtype.kind in 'SU' else npx.get('concatenate')(parts, axis=ax)
            out[n] = Var(v.dims, d, v.attrs, v.dates)
        else: out[n] = v.copy()
    return Dataset(out, sets[0]._coords, attrs=sets[0].attrs)


def combine(sets):
    if len(sets) == 1: return sets[0]
    first = sets[0]
    dims = []
    for d in first.sizes:
        if d not in first._vars: continue
        idx = []
        for s in sets:
            if d not in s._vars: raise ValueError('Every dimension requires a corresponding 1D coordinate and index for inferring concatenation order but the coordinate %r has no corresponding index' % d)
            idx.append(s._vars[d].data)
        if idx[0].dtype.kind in 'SU': same = all(np.array_equal(i, idx[0]) for i in idx)
        else: same = all(i.shape == idx[0].shape and all(C.E.fork(C.bz(C.eq(x, y))) for x, y in zip(A.obj(i).ravel(), A.obj(idx[0]).ravel())) for i in idx[1:])
        if same: continue
        dims.append(d)
        if any(i.size == 0 for i in idx): raise ValueError('Cannot handle size zero dimensions')
        # every index has to be monotonic
        for i in idx:
            c = list(A.obj(i).ravel())
            inc = all(C.E.fork(C.bz(C.le(x, y))) for x, y in zip(c, c[1:]))
            if not inc: raise Gap('indices of chunks that do not increase')
    if not dims: raise ValueError('Could not find any dimension coordinates to use to order the Dataset objects for concatenation')
    if len(dims) > 1: raise Gap('chunks in several dimensions')
    d = dims[0]
    starts = [A.obj(s._vars[d].data).ravel()[0] for s in sets]
    order = npx.cargsort(starts)
    for i, j in zip(order, order[1:]):
        if C.E.fork(C.bz(C.eq(starts[i], starts[j]))): raise Gap('chunks with the same first index')
    r = concat([sets[i] for i in order], d)
    c = list(A.obj(r._vars[d].data).ravel())
    if not all(C.E.fork(C.bz(C.le(x, y))) for x, y in zip(c, c[1:])): raise ValueError('Resulting object does not have monotonic global indexes along dimension %s' % d)
    return r


class Impl:
    """files: {path: {group or None: {name: (dims, data[, attrs])}}}"""
    def __init__(self, files): self.files = {os.path.abspath(k): v for k, v in files.items()}
    Dataset = Dataset
    DataArray = DataArray

    def _find(self, path):
        p = os.path.abspath(os.path.expanduser(str(path)))
        if p not in self.files: raise FileNotFoundError(p)
        return p, self.files[p]

    def open_dataset(self, file, group=None, decode_cf=None, **k):
        if set(k) - {'engine', 'chunks'}: raise Gap('open_dataset options %s' % sorted(k))
        p, f = self._find(file)
        g = group.strip('/') if group else None
        g = g or None
        if g not in f: raise OSError('group not found: ' + str(group))
        ds = Dataset({n: Var(*v) for n, v in f[g].items()}, source=p)
        if decode_cf is False: return ds
        for n, v in ds._vars.items():
            if v.data.dtype.kind == 'S': raise Gap('decoding of characters')
        return self.decode_cf(ds)

    def open_mfdataset(self, paths, preprocess=None, concat_dim=None, combine='by_coords', parallel=False, group=None, decode_cf=None,
                       data_vars='all', coords='different', compat='no_conflicts', **k):
        if set(k) - {'engine', 'chunks', 'join'}: raise Gap('open_mfdataset options %s' % sorted(k))
        if isinstance(paths, str):
            import glob
            paths = sorted(glob.glob(paths))
        paths = list(paths)
        if not paths: raise OSError('no files to open')
        if combine != 'by_coords' and not (combine == 'nested' and isinstance(concat_dim, str)): raise Gap('combine option')
        if combine == 'by_coords' and concat_dim is not None:
            raise ValueError("When combine='by_coords', passing a value for `concat_dim` has no effect.")
        if data_vars != 'minimal' or coords != 'minimal': raise Gap('combination options')
        sets = [self.open_dataset(p, group=group, decode_cf=decode_cf) for p in paths]
        if preprocess is not None: sets = [preprocess(s) for s in sets]
        if combine == 'nested': return concat(sets, concat_dim) if len(sets) > 1 else sets[0]
        return _combine(sets)

    def decode_cf(self, ds, **k):
        if k: raise Gap('decode_cf options')
        d = ds._copy()
        for n, v in list(d._vars.items()):
            u = v.attrs.get('units')
            if u == EPOCH:
                w = v.copy()
                w.attrs.pop('units')
                w.dates = True
                d._vars[n] = w
            elif u and ' since ' in u: raise Gap('time units ' + u)
        return d

    def NcDataset(self, path, mode='r', **k):
        if mode != 'r' or k: raise Gap('netCDF4.Dataset options')
        p, f = self._find(path)
        class Nc:
            def __init__(self, g):
                self.variables = {n: NcVar(Var(*v)) for n, v in f[g].items()}
                self.groups = {h: Nc(h) for h in f if h is not None} if g is None else {}
                self.dimensions = {}
            def __getitem__(self, n): return self.variables[n] if n in self.variables else self.groups[n]
            def close(self): pass
            def __enter__(self): return self
            def __exit__(self, *a): return False
        return Nc(None)


_combine = combine
