"""numpy as the code under test sees it."""
import builtins, math, types
import numpy as np
from . import core as C
from . import arr as A
from .core import SV, SB, Gap, is_sym, is_conc
from .arr import SymArray, sa, obj, new, wrap, finish, reduce_lanes, fold, dtof, native, allc, out_cell, F64, I64, BOOL, OBJ

OV = {}          # name -> override
NOV = np._NoValue


def ov(*names):
    def d(f):
        for n in names or (f.__name__.rstrip('_'),): OV[n] = f
        return f
    return d


# ---------------------------------------------------------------- helpers

def _walk(x, leaf):
    if isinstance(x, (SymArray, SV, SB)): return leaf(x)
    if isinstance(x, np.ndarray) and x.dtype == object: return leaf(x)
    if isinstance(x, list): return [_walk(y, leaf) for y in x]
    if isinstance(x, tuple): return tuple(_walk(y, leaf) for y in x)
    if isinstance(x, dict): return {k: _walk(v, leaf) for k, v in x.items()}
    t = getattr(x, '_symx_real_type', None)
    if t is not None: return t
    return x


def _any_sym(x):
    found = []
    def leaf(y):
        if is_sym(y) or not allc(y): found.append(1)
        return y
    _walk(x, leaf)
    return bool(found)


def _nat(x): return _walk(x, lambda y: native(sa(y)) if isinstance(y, np.ndarray) else y)


def lift(r):
    if isinstance(r, SymArray): return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fiub': return A.from_native(r)
        if r.dtype == object: return wrap(r, None)
        return r
    if isinstance(r, tuple):
        if hasattr(r, '_fields'): return type(r)(*[lift(x) for x in r])
        return tuple(lift(x) for x in r)
    if isinstance(r, list): return [lift(x) for x in r]
    return r


def call(func, args, kwargs):
    """np.<func>(*args) when an argument is a SymArray."""
    name = func.__name__
    f = OV.get(name)
    if f is not None: return f(*args, **kwargs)
    if name in STRUCT: return struct(func, args, kwargs)
    if not _any_sym((args, kwargs)):
        with np.errstate(all='ignore'):
            return lift(func(*_nat(args), **_nat(kwargs)))
    raise Gap('numpy function ' + name)


STRUCT = {'moveaxis', 'transpose', 'swapaxes', 'rollaxis', 'reshape', 'ravel', 'expand_dims', 'squeeze', 'broadcast_to',
          'split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'concatenate', 'stack', 'vstack', 'hstack', 'dstack',
          'column_stack', 'row_stack', 'delete', 'tile', 'repeat', 'flip', 'fliplr', 'flipud', 'roll', 'rot90',
          'broadcast_arrays', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'diag', 'diagonal', 'tril', 'triu', 'meshgrid',
          'resize', 'block', 'append', 'unstack', 'permute_dims', 'matrix_transpose', 'concat'}
JOIN = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack', 'append', 'block', 'concat'}


def struct(func, args, kwargs):
    dts = []
    def leaf(y):
        if isinstance(y, np.ndarray): dts.append(sa(y).dtype)
        else: dts.append(y.dtype)
        return obj(y)
    def base(x):
        if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in 'fiub': return A.from_native(x)
        if isinstance(x, (list, tuple)): return type(x)(base(y) for y in x) if not hasattr(x, '_fields') else x
        return x
    name = func.__name__
    args = tuple(base(a) if i == 0 or name in JOIN else a for i, a in enumerate(args))
    kw = {k: (base(v) if k in ('a', 'arrays', 'arr', 'ary', 'tup', 'm', 'array') else v) for k, v in kwargs.items()}
    first = [True]
    def conv(x, top):
        return _walk(x, leaf)
    # index-like arguments (axes, sections) must be native
    nargs = []
    for i, a in enumerate(args):
        if i == 0 or (name in JOIN and i == 1 and name == 'append') or name in ('broadcast_arrays', 'meshgrid', 'atleast_1d', 'atleast_2d', 'atleast_3d'):
            if is_sym(a): a = sa(a)
            if isinstance(a, (int, float, np.generic)) : a = sa(a)
            if isinstance(a, (list, tuple)) and name not in JOIN and name not in ('broadcast_arrays',):
                a = sa(a)
            nargs.append(_walk(a, leaf))
        else: nargs.append(_index_arg(a))
    nkw = {k: (_walk(v, leaf) if k in ('a', 'arrays', 'arr', 'ary', 'tup', 'm', 'array') else _index_arg(v)) for k, v in kw.items()}
    nkw.pop('dtype', None); nkw.pop('casting', None)
    r = func(*nargs, **nkw)
    dt = dts[0] if dts else None
    if name in JOIN:
        def all_dts(x):
            if isinstance(x, (list, tuple)):
                for y in x: yield from all_dts(y)
            else: yield from A._dts(x)
        ds = [d for a in args[:2 if name == 'append' else 1] for d in all_dts(a)] or dts
        dt = ds[0]
        for d in ds[1:]: dt = np.promote_types(dt, d) if OBJ not in (dt, d) else OBJ
    if name in ('broadcast_arrays', 'meshgrid', 'atleast_1d', 'atleast_2d', 'atleast_3d') and isinstance(r, (list, tuple)):
        assert len(r) == len(dts)
        return type(r)([wrap(x, d) for x, d in zip(r, dts)])       # each result keeps its own type
    def w(x):
        if isinstance(x, np.ndarray):
            s = wrap(x, dt)
            if name in JOIN and dt is not None and dt.kind in 'fiub': s = wrap(A._tidy(x, dt), dt)
            return s
        if isinstance(x, (list, tuple)): return type(x)([w(y) for y in x])
        return x
    return w(r)


def _index_arg(v):
    if isinstance(v, SymArray): return native(v) if allc(v) else A._conc_index(v)
    if isinstance(v, SV): return C.E.concretize_int(v)
    if isinstance(v, (list, tuple)): return type(v)(_index_arg(x) for x in v)
    return v


# ---------------------------------------------------------------- creation

@ov('array')
def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    return sa(x, dtype, copy=True, ndmin=ndmin)


@ov('asarray', 'asanyarray', 'ascontiguousarray', 'asarray_chkfinite')
def asarray(x, dtype=None, order=None, **k):
    return sa(x, dtype)


@ov('copy')
def copy_(a, order='K', subok=False): return sa(a, copy=True) if isinstance(a, np.ndarray) else sa(a)


def _shape(s):
    if isinstance(s, SymArray): s = native(s).tolist()
    if isinstance(s, (int, np.integer)): return (int(s),)
    if isinstance(s, SV): return (C.E.concretize_int(s),)
    return tuple(C.E.concretize_int(x) if isinstance(x, SV) else int(x) for x in s)


@ov('full')
def full(shape, fill_value, dtype=None, order='C', **k):
    fv = sa(fill_value)
    d = dtof(dtype) or fv.dtype
    r = new(_shape(shape), d)
    r[...] = fv
    return r


@ov('zeros')
def zeros(shape, dtype=float, order='C', **k): return full(shape, 0, dtof(dtype))
@ov('ones')
def ones(shape, dtype=None, order='C', **k): return full(shape, 1, dtof(dtype) or F64)


@ov('empty')
def empty(shape, dtype=float, order='C', **k):
    d = dtof(dtype)
    r = new(_shape(shape), d)
    if d == OBJ: return r
    # uninitialised memory: arbitrary values
    b = r.view(np.ndarray).reshape(-1)
    for i in range(b.size):
        if d.kind == 'f': b[i] = SV(C.E.fresh('uninit', hidden=True))
        elif d.kind == 'b': b[i] = False
        else: b[i] = SV(C.E.fresh('uninit', hidden=True), False, True)
    return r


def _like(f):
    def g(a, *args, dtype=None, order='K', subok=True, shape=None, **k):
        a = sa(a)
        return f(shape if shape is not None else a.shape, *args, dtype=dtof(dtype) or a.dtype)
    return g


OV['zeros_like'] = _like(zeros); OV['ones_like'] = _like(ones); OV['empty_like'] = _like(empty)
OV['full_like'] = lambda a, fill_value, dtype=None, **k: full(sa(a).shape, fill_value, dtof(dtype) or sa(a).dtype)


@ov('arange')
def arange(*a, dtype=None, **k):
    a = [x.item() if isinstance(x, SymArray) else x for x in a]
    a = [C.E.concretize_int(x) if isinstance(x, SV) and x.i else x for x in a]
    if any(is_sym(x) for x in a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        n = C.E.concretize_int(C.ceil(C.div(C.sub(hi, lo), st)))
        return sa([C.add(lo, C.mul(i, st)) for i in range(max(0, n))])
    return A.from_native(np.arange(*a, dtype=dtof(dtype)))


@ov('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = C.E.concretize_int(num) if isinstance(num, SV) else int(num)
    if not _any_sym((start, stop)):
        r = np.linspace(_nat(start), _nat(stop), num, endpoint=endpoint, retstep=retstep, dtype=dtof(dtype), axis=axis)
        return lift(r)
    if isinstance(start, np.ndarray) and start.ndim or isinstance(stop, np.ndarray) and stop.ndim:
        s, e = sa(start), sa(stop)
        s, e = (wrap(x, F64) for x in np.broadcast_arrays(s.view(np.ndarray), e.view(np.ndarray)))
        r = new((num,) + s.shape)
        div = (num - 1) if endpoint else num
        for k in np.ndindex(s.shape):
            l = linspace(s[k], e[k], num, endpoint)
            for i in range(num): r[(i,) + k] = l[i]
        return call_np('moveaxis', r, 0, axis) if axis else r
    div = (num - 1) if endpoint else num
    st = sa(start).item(); en = sa(stop).item()
    step = C.div(C.sub(en, st), div) if div > 0 else float('nan')
    cells = [C.add(st, C.mul(i, step)) if i else C.mul(st, 1.0) for i in range(num)]
    if endpoint and num > 1: cells[-1] = C.mul(en, 1.0)
    r = sa(cells, F64)
    if dtype is not None: r = r.astype(dtype)
    return (r, step) if retstep else r


@ov('eye', 'identity')
def eye(*a, **k): return A.from_native(np.eye(*a, **{x: (dtof(y) if x == 'dtype' else y) for x, y in k.items()}))


@ov('indices')
def indices(*a, **k): return A.from_native(np.indices(*a))


@ov('fromiter')
def fromiter(it, dtype, count=-1): return sa(list(it), dtype)


def call_np(name, *a, **k): return get(name)(*a, **k)


# ---------------------------------------------------------------- reductions

def _nokw(k):
    if any(v is not NOV and not (q == 'where' and v is True) for q, v in k.items()): raise Gap('keyword ' + ', '.join(k))


def _dt_sum(d): return I64 if d.kind in 'bi' else d


def _where(a, where, neutral):
    if where is True or where is NOV: return a
    return OV['where'](where, a, neutral)


@ov('sum')
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=NOV, where=True):
    a = sa(_where(sa(a), where, 0))
    d = dtof(dtype) or _dt_sum(a.dtype)
    keepdims = False if keepdims is NOV else keepdims
    def f(cs):
        cs = [A.conv_cell(c, d) if isinstance(c, (SB, bool)) else c for c in cs]
        return fold(C.add, cs, (0 if d.kind in 'iu' else 0.0) if not cs else None) if initial is NOV else fold(C.add, cs, initial)
    return reduce_lanes(f, a, axis, keepdims, d, out)


@ov('prod', 'product')
def prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=NOV, where=True):
    a = sa(a)
    d = dtof(dtype) or _dt_sum(a.dtype)
    if where is not True and where is not NOV: a = OV['where'](where, a, 1)
    return reduce_lanes(lambda cs: fold(C.mul, [A.conv_cell(c, d) for c in cs], initial if initial is not NOV else (1 if d.kind in 'iu' else 1.0) if not cs else None), a, axis, False if keepdims is NOV else keepdims, d, out)


def cmean(cs):
    if not cs: return float('nan')
    return C.div(fold(C.add, [C.mul(c, 1.0) if isinstance(c, SB) else A.conv_cell(c, F64) for c in cs]), len(cs))


def _fd(d): return d if d.kind == 'f' else F64


@ov('mean')
def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = sa(a)
    if where is not True and where is not NOV:
        w = wrap(np.broadcast_to(obj(where), a.shape), BOOL)
        if dtype is not None or (out is not None and out is not NOV): raise Gap('mean(where=)')
        keepdims = False if keepdims is NOV else keepdims
        return sum_(OV['where'](w, a, 0), axis=axis, dtype=_fd(a.dtype), keepdims=keepdims) / sum_(w, axis=axis, keepdims=keepdims)
    return reduce_lanes(cmean, a, axis, False if keepdims is NOV else keepdims, dtof(dtype) or _fd(a.dtype), out)


@ov('average')
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = sa(a)
    if weights is None: return mean(a, axis, keepdims=False if keepdims is NOV else keepdims)
    w = sa(weights)
    if w.shape != a.shape: w = wrap(np.broadcast_to(w.view(np.ndarray).reshape([-1 if i == A.norm_axes(axis, a.ndim)[0] else 1 for i in range(a.ndim)]), a.shape), w.dtype)
    s = sum_(w, axis)
    r = sum_(a * w, axis) / s
    return (r, s) if returned else r


def cvar(cs, ddof=0):
    n = len(cs)
    m = cmean(cs)
    d = [C.sub(A.conv_cell(c, F64), m) for c in cs]
    if n - ddof <= 0: return float('nan')
    return C.div(fold(C.add, [C.mul(x, x) for x in d]), n - ddof)


@ov('var')
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=NOV, correction=NOV):
    if (where is not True and where is not NOV) or mean is not NOV: raise Gap('var(where=, mean=)')
    a = sa(a)
    if correction is not NOV: ddof = correction
    return reduce_lanes(lambda cs: cvar(cs, ddof), a, axis, False if keepdims is NOV else keepdims, _fd(a.dtype), out)


@ov('std')
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=NOV, correction=NOV):
    if (where is not True and where is not NOV) or mean is not NOV: raise Gap('std(where=, mean=)')
    a = sa(a)
    if correction is not NOV: ddof = correction
    return reduce_lanes(lambda cs: C.sqrt(cvar(cs, ddof)), a, axis, False if keepdims is NOV else keepdims, _fd(a.dtype), out)


@ov('max', 'amax')
def max_(a, axis=None, out=None, keepdims=False, initial=NOV, where=True):
    a = sa(a)
    if where is not True and where is not NOV:
        if initial is NOV: raise ValueError("reduction operation 'maximum' does not have an identity, so to use a where mask one has to specify 'initial'")
        a = OV['where'](where, a, initial)
    return reduce_lanes(lambda cs: fold(C.max_, cs if initial is NOV else [initial] + cs), a, axis, False if keepdims is NOV else keepdims, a.dtype, out)


@ov('min', 'amin')
def min_(a, axis=None, out=None, keepdims=False, initial=NOV, where=True):
    a = sa(a)
    if where is not True and where is not NOV:
        if initial is NOV: raise ValueError("reduction operation 'minimum' does not have an identity, so to use a where mask one has to specify 'initial'")
        a = OV['where'](where, a, initial)
    return reduce_lanes(lambda cs: fold(C.min_, cs if initial is NOV else [initial] + cs), a, axis, False if keepdims is NOV else keepdims, a.dtype, out)


@ov('ptp')
def ptp(a, axis=None, out=None, keepdims=False): return max_(a, axis, keepdims=keepdims) - min_(a, axis, keepdims=keepdims)


@ov('any', 'sometrue')
def any_(a, axis=None, out=None, keepdims=False, where=True):
    if where is not True and where is not NOV: a = OV['where'](where, A.vec(C.truth, a), False)
    return reduce_lanes(lambda cs: fold(C.or_, cs, np.False_), sa(a), axis, False if keepdims is NOV else keepdims, BOOL, out)


@ov('all', 'alltrue')
def all_(a, axis=None, out=None, keepdims=False, where=True):
    if where is not True and where is not NOV: a = OV['where'](where, A.vec(C.truth, a), True)
    return reduce_lanes(lambda cs: fold(C.and_, cs, np.True_), sa(a), axis, False if keepdims is NOV else keepdims, BOOL, out)


@ov('count_nonzero')
def count_nonzero(a, axis=None, keepdims=False):
    r = reduce_lanes(lambda cs: fold(C.add, [A.conv_cell(C.truth(c), I64) for c in cs], 0), sa(a), axis, keepdims, I64)
    if axis is None and is_conc(r) and not keepdims: return int(r)
    return r


def _drop(cs): return [c for c in cs if not bool(C.isnan(c))]


@ov('nansum')
def nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _nokw(k)
    a = sa(a)
    if a.dtype.kind != 'f': return sum_(a, axis, keepdims=False if keepdims is NOV else keepdims)
    return sum_(wrap(A.apply_cells(lambda c: A.py(C.ite(C.isnan(c), 0.0, c)), [a.view(np.ndarray)]), a.dtype), axis, keepdims=False if keepdims is NOV else keepdims)


def cnanmean(cs):
    if not cs: return float('nan')
    cs = [A.conv_cell(c, F64) for c in cs]
    n = fold(C.add, [A.conv_cell(C.not_(C.isnan(c)), I64) for c in cs], 0)
    s = fold(C.add, [C.ite(C.isnan(c), 0.0, c) for c in cs])
    if is_conc(n) and n == 0: return float('nan')
    return C.div(s, n)


@ov('nanmean')
def nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _nokw(k)
    a = sa(a)
    return reduce_lanes(cnanmean, a, axis, False if keepdims is NOV else keepdims, _fd(a.dtype), None)


@ov('nanvar')
def nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    _nokw(k)
    a = sa(a)
    return reduce_lanes(lambda cs: (lambda d: cvar(d, ddof) if d else float('nan'))(_drop(cs)), a, axis, False if keepdims is NOV else keepdims, _fd(a.dtype))


@ov('nanstd')
def nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    _nokw(k)
    a = sa(a)
    return reduce_lanes(lambda cs: (lambda d: C.sqrt(cvar(d, ddof)) if d else float('nan'))(_drop(cs)), a, axis, False if keepdims is NOV else keepdims, _fd(a.dtype))


def cnanmax(cs):
    if not cs: raise ValueError('zero-size array')
    r = cs[0]
    for c in cs[1:]:
        if _maybe_nan(r) or _maybe_nan(c):
            r = C.ite(C.isnan(r), c, C.ite(C.isnan(c), r, C.ite(C.ge(c, r), c, r)))
        else: r = C.max_(r, c)
    return r


def _maybe_nan(x): return (isinstance(x, SV) and x.nan is not False) or C._isnan_c(x)


@ov('nanmax')
def nanmax(a, axis=None, out=None, keepdims=False, **k):
    _nokw(k)
    a = sa(a)
    return reduce_lanes(cnanmax, a, axis, False if keepdims is NOV else keepdims, a.dtype)


@ov('nanmin')
def nanmin(a, axis=None, out=None, keepdims=False, **k):
    _nokw(k)
    a = sa(a)
    return reduce_lanes(lambda cs: C.neg(cnanmax([C.neg(c) for c in cs])), a, axis, False if keepdims is NOV else keepdims, a.dtype)


@ov('cumsum')
def cumsum(a, axis=None, dtype=None, out=None):
    a = sa(a); a = a.astype(_dt_sum(a.dtype))
    return A.accumulate(C.add, a, axis)
@ov('cumprod')
def cumprod(a, axis=None, dtype=None, out=None):
    a = sa(a); a = a.astype(_dt_sum(a.dtype))
    return A.accumulate(C.mul, a, axis)


def cargmax(cs):
    if not cs: raise ValueError('attempt to get argmax of an empty sequence')
    best, bi = cs[0], 0
    for i, c in enumerate(cs[1:], 1):
        better = C.and_(C.not_(C.isnan(best)), C.or_(C.isnan(c), C.gt(c, best)))
        best = C.ite(better, c, best); bi = C.ite(better, i, bi)
    return bi


@ov('argmax')
def argmax(a, axis=None, out=None, keepdims=False):
    return reduce_lanes(cargmax, sa(a), axis, False if keepdims is NOV else keepdims, I64)
@ov('argmin')
def argmin(a, axis=None, out=None, keepdims=False):
    return reduce_lanes(lambda cs: cargmax([C.neg(c) if not isinstance(c, (bool, SB)) else C.not_(c) for c in cs]), sa(a), axis, False if keepdims is NOV else keepdims, I64)


# ---------------------------------------------------------------- order

def _after(a, b):
    """a sorts strictly after b (NaN last)."""
    r = C.gt(a, b)
    if _maybe_nan(a) or _maybe_nan(b):
        r = C.or_(r, C.and_(C.isnan(a), C.not_(C.isnan(b))))
    return r


def csort(cs):
    cs = list(cs)
    n = len(cs)
    if all(is_conc(c) for c in cs): return [x.item() if isinstance(x, np.generic) else x for x in np.sort(np.array(cs))]
    for i in range(n):
        for j in range(n - 1 - i):
            s = _after(cs[j], cs[j + 1])
            a, b = cs[j], cs[j + 1]
            cs[j], cs[j + 1] = C.ite(s, b, a), C.ite(s, a, b)
    return cs


def cargsort(cs):
    """Stable order, decided by forking."""
    idx = []
    for i in range(len(cs)):
        k = len(idx)
        while k > 0 and bool(_after(cs[idx[k - 1]], cs[i])): k -= 1
        idx.insert(k, i)
    return idx


def _along(f, a, axis, dt):
    a = sa(a)
    if axis is None: a, axis = a.ravel(), -1
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.empty(b.shape, dtype=object)
    for k in np.ndindex(b.shape[:-1]):
        v = f(list(b[k]))
        for i, x in enumerate(v): r[k + (i,)] = A.py(x)
    return wrap(np.moveaxis(r, -1, axis), dt)


@ov('sort')
def sort(a, axis=-1, kind=None, order=None, stable=None): return _along(csort, a, axis, sa(a).dtype)


@ov('argsort')
def argsort(a, axis=-1, kind=None, order=None, stable=None): return _along(cargsort, a, axis, I64)


@ov('partition')
def partition(a, kth, axis=-1, **k): return sort(a, axis)


@ov('argpartition')
def argpartition(a, kth, axis=-1, **k): return argsort(a, axis)


@ov('lexsort')
def lexsort(keys, axis=-1):
    keys = [list(obj(k).ravel()) for k in keys]
    n = len(keys[0])
    idx = []
    for i in range(n):
        k = len(idx)
        while k > 0:
            j = idx[k - 1]
            after = False
            for key in reversed(keys):
                if bool(_after(key[j], key[i])): after = True; break
                if bool(_after(key[i], key[j])): break
            if not after: break
            k -= 1
        idx.insert(k, i)
    return sa(idx)


def cquantile(cs, q, method='linear'):
    n = len(cs)
    if n == 0: return float('nan')
    if is_conc(q) and not (0 <= q <= 1): raise ValueError('Quantiles must be in the range [0, 1]')
    if is_sym(q) and C.E.fork(C.bz(C.or_(C.lt(q, 0), C.gt(q, 1)))): raise ValueError('Quantiles must be in the range [0, 1]')
    nan = fold(C.or_, [C.isnan(c) for c in cs], np.False_)
    if bool(nan): return float('nan')
    s = csort([C.mul(c, 1.0) if isinstance(c, (SB, bool)) else c for c in cs])
    pos = C.mul(q, n - 1)
    lo = C.E.concretize_int(C.floor(pos)) if is_sym(pos) else int(math.floor(pos))
    lo = max(0, min(lo, n - 1))
    hi = min(lo + 1, n - 1)
    g = C.sub(pos, lo)
    if method == 'lower': return s[lo]
    if method == 'higher': return s[hi] if not (is_conc(g) and g == 0) else s[lo]
    if method == 'nearest':
        return C.ite(C.lt(g, 0.5), s[lo], s[hi])
    if method == 'midpoint': return C.div(C.add(s[lo], s[hi]), 2) if not (is_conc(g) and g == 0) else s[lo]
    if method != 'linear': raise Gap('quantile method ' + method)
    if lo == hi or (is_conc(g) and g == 0): return s[lo]
    return C.add(s[lo], C.mul(C.sub(s[hi], s[lo]), g))


def _quant(drop, scale):
    def f(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, interpolation=None, **k):
        a = sa(a)
        qs = sa(q)
        def one(qq):
            return reduce_lanes(lambda cs: cquantile(_drop(cs) if drop else cs, C.div(qq, scale) if scale != 1 else qq, method), a, axis, False if keepdims is NOV else keepdims, _fd(a.dtype))
        if qs.ndim == 0: return one(qs.item())
        rs = [one(qq) for qq in qs.view(np.ndarray).ravel()]
        r = sa(rs)
        return r.reshape(qs.shape + r.shape[1:])
    return f


OV['quantile'] = _quant(False, 1); OV['nanquantile'] = _quant(True, 1)
OV['percentile'] = _quant(False, 100); OV['nanpercentile'] = _quant(True, 100)


@ov('median')
def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return OV['quantile'](a, 0.5, axis, keepdims=False if keepdims is NOV else keepdims)
@ov('nanmedian')
def nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return OV['nanquantile'](a, 0.5, axis, keepdims=False if keepdims is NOV else keepdims)


@ov('unique')
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, **k):
    a = sa(a)
    if axis is not None: raise Gap('unique(axis)')
    cs = list(a.view(np.ndarray).ravel())
    order = cargsort(cs)
    vals, first, counts, inv = [], [], [], [0] * len(cs)
    for i in order:
        if vals and (bool(C.eq(vals[-1], cs[i])) or (equal_nan and bool(C.isnan(vals[-1])) and bool(C.isnan(cs[i])))):
            counts[-1] += 1
        else: vals.append(cs[i]); first.append(i); counts.append(1)
        inv[i] = len(vals) - 1
    r = [sa(vals, a.dtype) if vals else new((0,), a.dtype)]
    if return_index: r.append(sa(first, I64))
    if return_inverse: r.append(sa(inv, I64).reshape(a.shape))
    if return_counts: r.append(sa(counts, I64))
    return r[0] if len(r) == 1 else tuple(r)


@ov('digitize')
def digitize(x, bins, right=False):
    b = list(sa(bins).view(np.ndarray).ravel())
    inc = all(bool(C.le(b[i], b[i + 1])) for i in range(len(b) - 1))
    if not inc: raise Gap('decreasing bins')
    cmp = (lambda c, e: C.gt(c, e)) if right else (lambda c, e: C.ge(c, e))
    def one(c):
        if _maybe_nan(c): return C.ite(C.isnan(c), len(b), _dig(c))
        return _dig(c)
    def _dig(c): return fold(C.add, [A.conv_cell(cmp(c, e), I64) for e in b], 0)
    r = A.apply_cells(one, [obj(x)])
    return finish(A._tidy(r, I64), I64)


@ov('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    if sorter is not None: a = sa(a)[sorter]
    return digitize(v, a, right=(side == 'left'))


@ov('bincount')
def bincount(x, weights=None, minlength=0):
    ids = list(obj(x).ravel())
    for c in ids:
        if bool(C.lt(c, 0)): raise ValueError("'list' argument must have no negative elements")
    minlength = int(minlength)
    n = minlength
    if all(is_conc(c) for c in ids):
        n = max([minlength] + [int(c) + 1 for c in ids])
    else:
        m = fold(C.max_, ids)
        if C.E.fork(C.bz(C.ge(m, minlength))): n = C.E.concretize_int(m) + 1
    w = list(obj(weights).ravel()) if weights is not None else None
    if w is not None:
        if len(w) != len(ids): raise ValueError('The weights and list don\'t have the same length.')
        w = [A.conv_cell(c, F64) for c in w]
    out = []
    for j in range(n):
        out.append(fold(C.add, [C.ite(C.eq(c, j), (w[i] if w is not None else 1), 0.0 if w is not None else 0) for i, c in enumerate(ids)], 0.0 if w is not None else 0))
    return sa(out, F64 if w is not None else I64) if out else new((0,), I64)


@ov('histogram')
def histogram(a, bins=10, range=None, density=None, weights=None):
    cs = list(obj(a).ravel())
    if isinstance(bins, (int, np.integer)):
        if range is None:
            if not cs: lo, hi = 0.0, 1.0
            else:
                lo, hi = fold(C.min_, cs), fold(C.max_, cs)
        else: lo, hi = range
        if bool(C.eq(lo, hi)): lo, hi = C.sub(lo, 0.5), C.add(hi, 0.5)
        edges = linspace(lo, hi, int(bins) + 1)
    else: edges = sa(bins)
    e = list(obj(edges).ravel())
    w = list(obj(weights).ravel()) if weights is not None else None
    h = []
    for j in builtins.range(len(e) - 1):
        last = j == len(e) - 2
        h.append(fold(C.add, [C.ite(C.and_(C.ge(c, e[j]), C.le(c, e[j + 1]) if last else C.lt(c, e[j + 1])), w[i] if w else 1, 0) for i, c in enumerate(cs)], 0))
    h = sa(h)
    if density: h = h / sum_(h) / (edges[1:] - edges[:-1])
    return h, edges


@ov('interp')
def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(obj(xp).ravel()), list(obj(fp).ravel())
    l, r = fp[0] if left is None else left, fp[-1] if right is None else right
    def one(c):
        if bool(C.lt(c, xp[0])): return l
        if bool(C.gt(c, xp[-1])): return r
        for i in range(len(xp) - 1):
            if bool(C.le(c, xp[i + 1])):
                if bool(C.eq(c, xp[i + 1])): return fp[i + 1]
                return C.add(fp[i], C.mul(C.div(C.sub(fp[i + 1], fp[i]), C.sub(xp[i + 1], xp[i])), C.sub(c, xp[i])))
        return fp[-1]
    return A.vec(one, x)


@ov('trapz', 'trapezoid')
def trapz(y, x=None, dx=1.0, axis=-1):
    y = call_np('moveaxis', sa(y), axis, -1)
    if x is not None:
        x = sa(x)
        d = x[..., 1:] - x[..., :-1] if x.ndim == 1 else (lambda m: m[..., 1:] - m[..., :-1])(call_np('moveaxis', x, axis, -1))
    else: d = dx
    return sum_(d * (y[..., 1:] + y[..., :-1]) / 2.0, axis=-1)


@ov('diff')
def diff(a, n=1, axis=-1, **k):
    a = sa(a)
    for _ in range(n):
        m = call_np('moveaxis', a, axis, -1)
        a = call_np('moveaxis', m[..., 1:] - m[..., :-1], -1, axis)
    return a


@ov('ediff1d')
def ediff1d(a, **k): return diff(sa(a).ravel())


# ---------------------------------------------------------------- selection

@ov('where')
def where(c, x=None, y=None):
    if x is None and y is None: return nonzero(c)
    def dt():
        ds = []
        for v in (x, y):
            if isinstance(v, bool): ds.append(BOOL)
            elif isinstance(v, int): ds.append(0)
            elif isinstance(v, float): ds.append(0.0)
            elif isinstance(v, np.ndarray): ds.append(sa(v).dtype)
            elif isinstance(v, (list, tuple)): ds.append(sa(v).dtype)
            else: ds.append(A.cell_dt(v))
        return np.result_type(*ds)
    d = dt()
    r = A.apply_cells(lambda q, a, b: A.py(C.ite(q, A.conv_cell(A.py(a), d), A.conv_cell(A.py(b), d))), [obj(c), obj(x), obj(y)])
    return finish(r, d) if r.ndim else wrap(r, d)


@ov('select')
def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))): r = where(c, v, r)
    return r


@ov('nonzero')
def nonzero(a):
    a = sa(a)
    m = A._conc_mask(wrap(A.apply_cells(C.truth, [a.view(np.ndarray)]), BOOL))
    return tuple(A.from_native(x) for x in np.nonzero(m))


@ov('flatnonzero')
def flatnonzero(a): return nonzero(sa(a).ravel())[0]


@ov('argwhere')
def argwhere(a): return call_np('transpose', call_np('stack', list(nonzero(a)), axis=0))


@ov('extract')
def extract(cond, a): return sa(a).ravel()[sa(cond).ravel().astype(bool)]


@ov('compress')
def compress(cond, a, axis=None, out=None):
    a = sa(a)
    if axis is None: a, axis = a.ravel(), 0
    return a[(slice(None),) * (axis % a.ndim) + (nonzero(cond)[0],)]


@ov('place')
def place(a, mask, vals):
    m = A._conc_mask(sa(mask).astype(bool))
    vs = list(obj(vals).ravel())
    ks = [k for k in np.ndindex(*m.shape) if m[k]]
    if not vs and ks: raise ValueError('Cannot insert from an empty array!')
    for i, k in enumerate(ks): a[tuple(int(q) for q in k)] = vs[i % len(vs)]


@ov('putmask', 'copyto')
def putmask(a, mask, vals, **k):
    if 'where' in k or not isinstance(mask, np.ndarray) or sa(mask).dtype != BOOL:
        src, w = mask, k.get('where', vals)
        a[...] = where(w, src, a) if w is not True else src
        return
    vs = obj(vals)
    if vs.ndim == 0: a[sa(mask)] = vs[()]
    else: a[...] = where(mask, vals, a)


@ov('take')
def take(a, indices, axis=None, out=None, mode='raise'):
    a = sa(a)
    if axis is None: return a.ravel()[indices if not isinstance(indices, (list, tuple)) else sa(indices)]
    ax = A.norm_axes(axis, a.ndim)[0]
    return a[(slice(None),) * ax + (indices if not isinstance(indices, (list, tuple)) else sa(indices),)]


@ov('take_along_axis')
def take_along_axis(arr, indices, axis=-1):
    a, ix = sa(arr), sa(indices)
    if axis is None: return a.ravel()[ix]
    ax = A.norm_axes(axis, a.ndim)[0]
    shape = list(a.shape); shape[ax] = ix.shape[ax]
    ixb = np.broadcast_to(ix.view(np.ndarray), shape)
    r = new(tuple(shape), a.dtype)
    for k in np.ndindex(tuple(shape)):
        r[k] = a[k[:ax] + (ixb[k],) + k[ax + 1:]]
    return r


@ov('put_along_axis')
def put_along_axis(arr, indices, values, axis):
    ax = A.norm_axes(axis, arr.ndim)[0]
    ix = sa(indices)
    vs = np.broadcast_to(obj(values), ix.shape)
    for k in np.ndindex(ix.shape): arr[k[:ax] + (C.E.concretize_int(ix.view(np.ndarray)[k]),) + k[ax + 1:]] = vs[k]


@ov('insert')
def insert(a, i, v, axis=None):
    a = sa(a)
    r = np.insert(a.view(np.ndarray), _index_arg(i), obj(v), axis)
    return wrap(A._tidy(r, a.dtype), a.dtype)


@ov('clip')
def clip(a, a_min=None, a_max=None, out=None, min=NOV, max=NOV, **k):
    if min is not NOV: a_min = min
    if max is not NOV: a_max = max
    r = sa(a)
    dt = r.dtype
    for v in (a_min, a_max):
        if v is not None: dt = np.promote_types(dt, sa(v).dtype) if not isinstance(v, (int, float)) else np.result_type(dt, v)
    def f(c, lo, hi):
        if lo is not None: c = C.max_(c, lo)
        if hi is not None: c = C.min_(c, hi)
        return c
    lo = obj(a_min) if a_min is not None else None
    hi = obj(a_max) if a_max is not None else None
    arrs = [obj(r)] + [x for x in (lo, hi) if x is not None]
    def g(*xs):
        xs = list(xs); c = xs.pop(0)
        l = xs.pop(0) if lo is not None else None
        h = xs.pop(0) if hi is not None else None
        if l is not None and C._isinf(l): l = None
        if h is not None and C._isinf(h): h = None
        return f(c, l, h)
    res = A._tidy(A.apply_cells(g, arrs), dt)
    if out is not None: return A._store(res, dt, out[0] if isinstance(out, tuple) else out, True)
    return finish(res, dt)


@ov('round', 'around', 'round_')
def round_(a, decimals=0, out=None):
    if decimals == 0: return np.rint(sa(a)) if isinstance(a, np.ndarray) else A.vec(C.rint, a)
    return A.vec(lambda c: C.div(C.rint(C.mul(c, 10 ** decimals)), 10 ** decimals), a)


@ov('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = sa(x)
    r = A.apply_cells(lambda c: A.py(C.ite(C.isnan(c), nan, c)) if not C._isinf(c) else (np.finfo(float).max if c > 0 else np.finfo(float).min), [a.view(np.ndarray)])
    if not copy: a.view(np.ndarray)[...] = r; return a
    return finish(r, a.dtype)


@ov('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        r = C.le(C.fabs(C.sub(x, y)), C.add(atol, C.mul(rtol, C.fabs(y))))
        if equal_nan: r = C.or_(r, C.and_(C.isnan(x), C.isnan(y)))
        return r
    return A.vec(f, a, b)


@ov('allclose')
def allclose(a, b, **k): return bool(all_(isclose(a, b, **k)))


@ov('array_equal')
def array_equal(a, b, equal_nan=False):
    a, b = sa(a), sa(b)
    if a.shape != b.shape: return False
    r = A.vec(lambda x, y: C.or_(C.eq(x, y), C.and_(C.isnan(x), C.isnan(y))) if equal_nan else C.eq(x, y), a, b)
    return bool(all_(r))


@ov('isin', 'in1d')
def isin(a, t, **k):
    ts = list(obj(t).ravel())
    return A.vec(lambda x: fold(C.or_, [C.eq(x, y) for y in ts], np.False_), a)


@ov('ndim')
def ndim(a): return 0 if is_sym(a) else sa(a).ndim if isinstance(a, (list, tuple, np.ndarray)) else np.ndim(a)
@ov('shape')
def shape(a): return () if is_sym(a) else A._shape_of(a)
@ov('size')
def size(a, axis=None):
    s = shape(a)
    return int(np.prod(s)) if axis is None else s[axis]


@ov('isscalar')
def isscalar(x): return True if is_sym(x) else np.isscalar(x)


@ov('iscomplexobj')
def iscomplexobj(x): return False
@ov('isreal')
def isreal(x): return ones(shape(x), bool)
@ov('isrealobj')
def isrealobj(x): return True
@ov('real')
def real(x): return x


@ov('shares_memory', 'may_share_memory')
def shares_memory(a, b, max_work=None):
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray): return False
    return np.shares_memory(a.view(np.ndarray), b.view(np.ndarray))


@ov('ndenumerate')
def ndenumerate(a):
    a = sa(a)
    for k in np.ndindex(a.shape): yield k, a[k]


@ov('fill_diagonal')
def fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)): a[i, i] = v


@ov('unravel_index')
def unravel_index(i, shape): return lift(np.unravel_index(_index_arg(i), _shape(shape)))


@ov('ravel_multi_index')
def rmi(i, dims, **k): return lift(np.ravel_multi_index(_index_arg(i), _shape(dims), **k))


@ov('result_type')
def result_type(*a): return np.result_type(*[sa(x).dtype if isinstance(x, np.ndarray) else x.dtype if is_sym(x) else dtof(x) if hasattr(x, '_symx_real_type') else x for x in a])


# ---------------------------------------------------------------- algebra and statistics

@ov('inner')
def inner(a, b):
    a, b = sa(a), sa(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    return tensordot(a, b, axes=(-1, -1))


@ov('matmul')
def matmul(a, b, out=None, **k):
    a, b = sa(a), sa(b)
    if k: raise Gap('matmul')
    if a.ndim == 0 or b.ndim == 0: raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim <= 2 and b.ndim <= 2: return dot(a, b, out)
    x = a if a.ndim > 1 else a[None, :]
    y = b if b.ndim > 1 else b[:, None]
    if x.shape[-1] != y.shape[-2]: raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    r = sum_(x[..., :, :, None] * y[..., None, :, :], axis=-2)
    if a.ndim == 1: r = r[..., 0, :]
    if b.ndim == 1: r = r[..., 0]
    return r


@ov('dot')
def dot(a, b, out=None):
    if out is not None: raise Gap('dot(out=)')
    a, b = sa(a), sa(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape: raise ValueError('shapes not aligned')
        return sum_(a * b)
    if a.ndim <= 2 and b.ndim <= 2:
        x = a if a.ndim == 2 else a[None, :]
        y = b if b.ndim == 2 else b[:, None]
        if x.shape[1] != y.shape[0]: raise ValueError('shapes not aligned')
        r = sum_(x[:, :, None] * y[None, :, :], axis=1)
        if a.ndim == 1: r = r[0]
        if b.ndim == 1: r = r[..., 0]
        return r
    return tensordot(a, b, axes=(-1, -2)) if b.ndim > 1 else tensordot(a, b, axes=(-1, 0))


@ov('trace')
def trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None): return sum_(call_np('diagonal', sa(a), offset, axis1, axis2), axis=-1)


@ov('vdot')
def vdot(a, b): return sum_(sa(a).ravel() * sa(b).ravel())
@ov('outer')
def outer(a, b): return sa(a).ravel()[:, None] * sa(b).ravel()[None, :]


@ov('einsum')
def einsum(spec, *ops, **k):
    if not _any_sym(ops): return lift(np.einsum(spec, *_nat(ops)))
    spec = spec.replace(' ', '')
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if out is None or '.' in spec: raise Gap('einsum ' + spec)
    ops = [sa(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape): dims[c] = n
    red = [c for c in dims if c not in out]
    r = new(tuple(dims[c] for c in out))
    for k in np.ndindex(r.shape):
        env = dict(zip(out, k)); tot = 0.0
        for q in np.ndindex(tuple(dims[c] for c in red)):
            env.update(zip(red, q))
            tot = C.add(tot, fold(C.mul, [o.view(np.ndarray)[tuple(env[c] for c in s)] for s, o in zip(ins, ops)]))
        r.view(np.ndarray)[k] = A.py(tot)
    return r if r.ndim else out_cell(r.view(np.ndarray)[()], F64)


def ccov(x, y, ddof=1):
    n = len(x)
    mx, my = cmean(x), cmean(y)
    s = fold(C.add, [C.mul(C.sub(a, mx), C.sub(b, my)) for a, b in zip(x, y)])
    if n - ddof <= 0: return C.div(s, 0.0) if is_conc(s) else float('nan')
    return C.div(s, n - ddof)


def _rows(x, y, rowvar):
    x = sa(x)
    if x.ndim > 2: raise ValueError('m has more than 2 dimensions')
    rows = [list(r) for r in (x.view(np.ndarray) if rowvar or x.ndim == 1 else x.view(np.ndarray).T).reshape(-1 if x.ndim == 2 else 1, x.shape[-1] if rowvar or x.ndim == 1 else x.shape[0])] if x.ndim else [[x.item()]]
    if y is not None:
        y = sa(y)
        ry = [list(r) for r in (y.view(np.ndarray) if rowvar or y.ndim == 1 else y.view(np.ndarray).T).reshape(-1 if y.ndim == 2 else 1, y.shape[-1] if rowvar or y.ndim == 1 else y.shape[0])]
        if len(ry[0]) != len(rows[0]): raise ValueError('all the input array dimensions must match')
        rows += ry
    return [[A.conv_cell(c, F64) for c in r] for r in rows]


@ov('cov')
def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    rows = _rows(m, y, rowvar)
    dd = (0 if bias else 1) if ddof is None else ddof
    if len(rows) == 1: return out_cell(ccov(rows[0], rows[0], dd), F64)
    return sa([[ccov(a, b, dd) for b in rows] for a in rows], F64)


@ov('corrcoef')
def corrcoef(x, y=None, rowvar=True, **k):
    rows = _rows(x, y, rowvar)
    if len(rows[0]) == 0: return full((len(rows), len(rows)), float('nan'))
    n = len(rows)
    if n == 1: return 1.0
    c = [[ccov(a, b) for b in rows] for a in rows]
    sd = [C.sqrt(c[i][i]) for i in range(n)]
    return sa([[C.div(C.div(c[i][j], sd[i]), sd[j]) for j in range(n)] for i in range(n)], F64)


def _conv(a, v, mode):
    a, v = list(obj(a).ravel()), list(obj(v).ravel())
    if len(a) < len(v): a, v = v, a
    full = [fold(C.add, [C.mul(a[i], v[k - i]) for i in range(len(a)) if 0 <= k - i < len(v)]) for k in range(len(a) + len(v) - 1)]
    n, m = len(a), len(v)
    if mode == 'full': return sa(full)
    if mode == 'same': return sa(full[(m - 1) // 2:(m - 1) // 2 + n])
    return sa(full[m - 1:n])


@ov('convolve')
def convolve(a, v, mode='full'): return _conv(a, v, mode)


@ov('correlate')
def correlate(a, v, mode='valid'):
    if sa(a).size < sa(v).size: return _conv(v, sa(a).ravel()[::-1], mode)[::-1]
    return _conv(a, sa(v).ravel()[::-1], mode)


@ov('nanprod')
def nanprod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _nokw(k)
    a = sa(a)
    return prod(where(A.vec(C.isnan, a), 1, a), axis=axis, keepdims=False if keepdims is NOV else keepdims)


@ov('nancumsum')
def nancumsum(a, axis=None, dtype=None, out=None):
    a = sa(a)
    return cumsum(where(A.vec(C.isnan, a), 0.0, a), axis)


@ov('cumulative_sum')
def cumulative_sum(x, *, axis=None, dtype=None, out=None, include_initial=False):
    x = sa(x)
    if axis is None and x.ndim > 1: raise ValueError('For arrays which have more than one dimension ``axis`` argument is required.')
    if include_initial: raise Gap('cumulative_sum(include_initial)')
    return cumsum(x, axis or 0)


@ov('isposinf')
def isposinf(x, out=None): return A.vec(lambda c: C.and_(C.isinf(c), C.gt(c, 0)), x)
@ov('isneginf')
def isneginf(x, out=None): return A.vec(lambda c: C.and_(C.isinf(c), C.lt(c, 0)), x)


def _nanarg(sign):
    def f(a, axis=None, out=None, keepdims=False):
        def one(cs):
            keep = [i for i, c in enumerate(cs) if not bool(C.isnan(c))]
            if not keep: raise ValueError('All-NaN slice encountered')
            j = cargmax([cs[i] if sign > 0 else C.neg(cs[i]) for i in keep])
            r = keep[0]
            for q, i in enumerate(keep): r = C.ite(C.eq(j, q), i, r)
            return r
        return reduce_lanes(one, sa(a), axis, False if keepdims is NOV else keepdims, I64)
    return f


OV['nanargmax'] = _nanarg(1); OV['nanargmin'] = _nanarg(-1)


@ov('pad')
def pad(a, pad_width, mode='constant', constant_values=0, **k):
    a = sa(a)
    if mode != 'constant' or k: raise Gap('pad')
    w = np.broadcast_to(np.asarray(_index_arg(pad_width)), (a.ndim, 2))
    if np.ndim(constant_values): raise Gap('pad')
    out = full(tuple(int(n + x + y) for n, (x, y) in zip(a.shape, w)), constant_values, a.dtype)
    out[tuple(slice(int(x), int(x) + n) for n, (x, y) in zip(a.shape, w))] = a
    return out


@ov('union1d')
def union1d(a, b): return unique(call_np('concatenate', [sa(a).ravel(), sa(b).ravel()]))
@ov('intersect1d')
def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices: raise Gap('intersect1d')
    a = unique(a)
    return a[isin(a, b)]
@ov('setdiff1d')
def setdiff1d(a, b, assume_unique=False):
    a = sa(a).ravel() if assume_unique else unique(a)
    return a[~isin(a, b)]


def _uniq(name, fields, **kw):
    import collections
    T = collections.namedtuple(name, fields)
    return lambda x: T(*unique(x, equal_nan=False, **kw))


OV['unique_values'] = lambda x: unique(x, equal_nan=False)
OV['unique_counts'] = _uniq('UniqueCountsResult', 'values counts', return_counts=True)
OV['unique_inverse'] = _uniq('UniqueInverseResult', 'values inverse_indices', return_inverse=True)


@ov('tensordot')
def tensordot(a, b, axes=2):
    a, b = sa(a), sa(b)
    if isinstance(axes, (int, np.integer)): x, y = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        x, y = axes
        x = [x] if isinstance(x, (int, np.integer)) else list(x)
        y = [y] if isinstance(y, (int, np.integer)) else list(y)
    x, y = [i % a.ndim for i in x], [i % b.ndim for i in y]
    ka, kb = [i for i in range(a.ndim) if i not in x], [i for i in range(b.ndim) if i not in y]
    n = int(np.prod([a.shape[i] for i in x]))
    p = call_np('transpose', a, ka + x).reshape(-1, n)
    q = call_np('transpose', b, y + kb).reshape(n, -1)
    return dot(p, q).reshape(tuple([a.shape[i] for i in ka] + [b.shape[i] for i in kb]))


@ov('vecdot')
def vecdot(a, b, axis=-1): return sum_(sa(a) * sa(b), axis=axis)
@ov('matvec')
def matvec(a, b): return sum_(sa(a) * sa(b)[..., None, :], axis=-1)
@ov('vecmat')
def vecmat(a, b): return sum_(sa(a)[..., :, None] * sa(b), axis=-2)


@ov('piecewise')
def piecewise(x, condlist, funclist, *args, **kw):
    x = sa(x)
    if args or kw: raise Gap('piecewise')
    conds = [sa(c) for c in condlist] if isinstance(condlist, (list, tuple)) and condlist and isinstance(condlist[0], (list, tuple, np.ndarray)) else [sa(c) for c in condlist]
    fl = list(funclist)
    if len(fl) == len(conds) + 1: default = fl.pop()
    elif len(fl) == len(conds): default = 0
    else: raise ValueError('with %d condition(s), either %d or %d functions are expected' % (len(conds), len(conds), len(conds) + 1))
    out = full(x.shape, 0, x.dtype)
    rest = full(x.shape, True, bool)
    for c in conds: rest = rest & ~c
    for c, f in [(rest, default)] + list(zip(conds, fl)):
        if callable(f):
            m = A._conc_mask(sa(c))
            if m.any(): out[m] = f(x[m])
        else: out = where(c, f, out).astype(x.dtype)
    return out


@ov('trim_zeros', 'gradient', 'histogram2d', 'histogramdd', 'polyval')
def _nope2(*a, **k): raise Gap('numpy function')


@ov('put')
def put(a, ind, v, mode='raise'):
    ind = [int(i) for i in np.ravel(_index_arg(ind))]
    vals = list(obj(v).ravel())
    for j, i in enumerate(ind): a[np.unravel_index(i, a.shape)] = vals[j % len(vals)]
    return None


@ov('apply_along_axis')
def apply_along_axis(func1d, axis, a, *args, **kwargs):
    a = sa(a)
    ax = A.norm_axes(axis, a.ndim)[0]
    t = call_np('moveaxis', a, ax, -1)
    ks = t.shape[:-1]
    if 0 in ks: raise ValueError('Cannot apply_along_axis when any iteration dimensions are 0')
    res = {}
    first = None
    for k in np.ndindex(ks):
        r = sa(func1d(t[k], *args, **kwargs))
        if first is None: first = r
        res[k] = r
    out = new(ks + first.shape, first.dtype)
    for k, r in res.items(): out[k] = r if r.ndim else r.item()
    # result axes take the place of the reduced one
    nd = len(first.shape)
    axes = list(range(len(ks)))
    return call_np('transpose', out, axes[:ax] + list(range(len(ks), len(ks) + nd)) + axes[ax:]) if out.ndim else out.item()


@ov('vectorize')
def vectorize(f, otypes=None, excluded=None, signature=None, **k):
    if signature: raise Gap('vectorize(signature)')
    def g(*a):
        return A.vec(lambda *c: A.py(f(*c)), *a)
    return g


@ov('frompyfunc')
def frompyfunc(f, nin, nout, **k):
    return lambda *a: A.vec(lambda *c: A.py(f(*c)), *a)


@ov('apply_over_axes', 'polyfit', 'fft')
def _nope(*a, **k): raise Gap('numpy function')


@ov('ix_')
def ix_(*a): return lift(np.ix_(*[_index_arg(sa(x)) for x in a]))


@ov('array_str', 'array2string', 'array_repr')
def array_str(a, *r, **k): return str(sa(a))


@ov('errstate')
class errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f


@ov('seterr')
def seterr(**k): return {}


# ---------------------------------------------------------------- memory map

class MemMap:
    """np.memmap: an array whose cells live in a shared store keyed by the file; the file itself is real."""

    def __call__(self, filename, dtype=np.uint8, mode='r+', offset=0, shape=None, order='C'):
        import os
        from . import env
        mode = {'readonly': 'r', 'copyonwrite': 'c', 'readwrite': 'r+', 'write': 'w+'}.get(mode, mode)
        if mode not in ('r', 'c', 'r+', 'w+'): raise ValueError('mode must be one of ...')
        d = dtof(dtype)
        key = os.path.abspath(os.fspath(filename))
        st = C.E.memmaps
        if mode == 'w+':
            if shape is None: raise ValueError('shape must be given if mode == \'w+\'')
            with env.guarded_open(filename, 'w+b') as f: f.write(b'\0' * (int(np.prod(shape)) * d.itemsize + offset))
            base = zeros(tuple(shape), d)
            st[key] = (env.inode(key), base)
        if not os.path.exists(key): raise FileNotFoundError(2, 'No such file or directory', key)
        ino, base = st[key] if key in st else (None, None)
        if base is None or ino != env.inode(key): raise Gap('memmap over a foreign file')
        if shape is not None and tuple(shape) != base.shape:
            if int(np.prod(shape)) > base.size: raise ValueError('mmap length is greater than file size')
            base = base.reshape(-1)[:int(np.prod(shape))].reshape(shape)
        if d != base.dtype: raise Gap('memmap reinterpretation')
        if mode == 'c': base = base.copy()
        v = base[...].view(MemArr)
        v._dt = base._dt
        v._ro = mode == 'r'
        v.filename = filename
        return v


class MemArr(SymArray):
    _ro = False
    def __array_finalize__(self, o):
        super().__array_finalize__(o)
        self._ro = getattr(o, '_ro', False)
    def __setitem__(self, k, v):
        if self._ro: raise ValueError('assignment destination is read-only')
        A.setitem(self, k, v)
    def flush(self): pass
    def _close(self): pass


OV['memmap'] = MemMap()


# ---------------------------------------------------------------- proxy

class Proxy(types.ModuleType):
    def __init__(self, real, table, name):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table

    def __getattr__(self, name):
        t = self.__dict__['_table']
        if name in t: return t[name]
        v = getattr(self.__dict__['_real'], name)    # AttributeError as in real numpy
        return v


def _funcs(name):
    f = getattr(np, name)
    if isinstance(f, np.ufunc):
        return f
    def g(*a, **k): return call(f, a, k)
    g.__name__ = name
    g.__wrapped__ = f
    return g


class UfWrap:
    """A ufunc as attribute of the proxy: always works on cells, so results can hold symbols later."""
    def __init__(self, uf): self.uf = uf; self.__name__ = uf.__name__; self.nin = uf.nin; self.nout = uf.nout
    def __call__(self, *a, **k):
        n = self.uf.nin
        if len(a) > n: k['out'] = (a[n],); a = a[:n]
        return A.dispatch_ufunc(self.uf, '__call__', a, k)
    def reduce(self, *a, **k): return A.dispatch_ufunc(self.uf, 'reduce', a, k)
    def accumulate(self, *a, **k): return A.dispatch_ufunc(self.uf, 'accumulate', a, k)
    def outer(self, *a, **k): return A.dispatch_ufunc(self.uf, 'outer', a, k)
    def at(self, *a, **k): return A.dispatch_ufunc(self.uf, 'at', a, k)
    def reduceat(self, *a, **k): return A.dispatch_ufunc(self.uf, 'reduceat', a, k)
    def __repr__(self): return repr(self.uf)


class NP(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        c = self.__dict__['_cache']
        if name in c: return c[name]
        if name.startswith('__'): return getattr(np, name)
        if name == 'random':
            from . import rnd
            v = rnd.MODULE
        else: v = get(name)
        c[name] = v
        return v


def get(name):
    f = OV.get(name)
    if f is not None:
        return f
    v = getattr(np, name)
    if isinstance(v, np.ufunc): return UfWrap(v)
    if isinstance(v, type) or isinstance(v, types.ModuleType): return v
    if callable(v) and not isinstance(v, type): return _funcs(name)
    return v


np_proxy = NP()
