"""Arrays of symbolic cells.

SymArray is an object-dtype ndarray subclass: shapes, strides, views, basic indexing and aliasing are numpy's own.
Element values are cells (numbers, SV, SB).  `_dt` is the logical dtype, propagated with numpy's own promotion rules.
"""
import math
import numpy as np
from . import core as C
from .core import SV, SB, Gap, is_sym, is_conc

F64, I64, BOOL, OBJ = np.dtype('float64'), np.dtype('int64'), np.dtype('bool'), np.dtype('O')


def dtof(d):
    """Logical dtype of a dtype-like given by the code under test."""
    if d is None: return None
    if isinstance(d, np.dtype): return d
    n = getattr(d, '_symx_real_type', None)
    if n is not None: d = n
    return np.dtype(d)


def cell_dt(x):
    if isinstance(x, (SV, SB)): return x.dtype
    if isinstance(x, np.generic): return x.dtype
    if isinstance(x, bool): return BOOL
    if isinstance(x, int): return I64
    if isinstance(x, float): return F64
    return OBJ


def scan_dt(cells):
    dt = None
    for x in cells:
        d = cell_dt(x)
        if d == OBJ: return OBJ
        dt = d if dt is None else np.promote_types(dt, d)
    return F64 if dt is None else dt


def py(x):
    """Concrete cells are stored as plain Python numbers."""
    if isinstance(x, np.generic): return x.item()
    return x


def out_cell(x, dt):
    """A cell as it leaves an array (numpy scalar for concrete values)."""
    if is_sym(x): return x
    if dt is not None and dt.kind in 'fiub' and is_conc(x): return dt.type(x)
    return x


def conv_cell(x, dt):
    """Store/cast one cell into logical dtype dt."""
    if dt is None or dt == OBJ: return x
    if isinstance(x, np.ndarray) and x.ndim == 0: x = x.view(np.ndarray)[()]
    if x is None and dt.kind == 'f': return float('nan')
    k = dt.kind
    if is_conc(x):
        if k == 'f' and dt != F64: return float(dt.type(x))
        if k == 'f': return float(x)
        if k in 'iu':
            if isinstance(x, (float, np.floating)) and not math.isfinite(x): return int(np.iinfo(np.int64).min)
            return int(x)
        if k == 'b': return bool(x)
        return x
    if not is_sym(x):
        if isinstance(x, str) and k == 'f': return float(x)
        raise TypeError('cannot store %r in %s' % (type(x), dt))
    if k == 'b': return C.truth(x)
    if k in 'iu':
        if isinstance(x, SB): return C.mk(C.parts(x)[0], False, True)
        if x.i: return x
        x = C._denan(x)
        if is_conc(x): return conv_cell(x, dt)
        r = C.trunc(x)
        return SV(r.t, False, True) if isinstance(r, SV) else int(r)
    if k == 'f':
        if isinstance(x, SB): return C.mk(C.parts(x)[0], False, False)
        if dt == np.float32 and not x.i: return C.narrow(x, 24)
        if dt == np.float16: return C.narrow(x, 11)
        return SV(x.t, x.nan, False) if x.i else x
    if k == 'c': raise Gap('complex')
    raise Gap('dtype %s' % dt)


class SymArray(np.ndarray):
    _dt = None
    __array_priority__ = 1e8

    def __array_finalize__(self, obj):
        self._dt = getattr(obj, '_dt', None)

    @property
    def dtype(self):
        if self._dt is None:
            self._dt = scan_dt(self.view(np.ndarray).ravel())
        return self._dt

    @dtype.setter
    def dtype(self, v): raise Gap('dtype assignment')

    @property
    def itemsize(self): return self.dtype.itemsize

    @property
    def nbytes(self): return self.size * self.dtype.itemsize

    # ------------------------------------------------ protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npx
        return npx.call(func, args, kwargs)

    def __array_wrap__(self, a, ctx=None, scalar=False):
        r = a.view(SymArray); r._dt = None
        return r

    # ------------------------------------------------ indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __iter__(self):
        if self.ndim == 0: raise TypeError('iteration over a 0-d array')
        for i in range(len(self)): yield self[i]

    def __bool__(self):
        if self.size == 1: return bool(self.view(np.ndarray).ravel()[0])
        if self.size == 0: return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __contains__(self, x):
        r = False
        for c in self.view(np.ndarray).ravel():
            if bool(C.eq(c, x)): return True
        return r

    def __float__(self):
        if self.size != 1: raise TypeError('only length-1 arrays can be converted')
        return float(self.view(np.ndarray).ravel()[0])

    def __int__(self):
        if self.size != 1: raise TypeError('only length-1 arrays can be converted')
        return int(self.view(np.ndarray).ravel()[0])

    def __index__(self):
        if self.size != 1 or self.ndim: raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return int(self.view(np.ndarray).ravel()[0])

    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")

    def __str__(self): return _str(self)
    def __repr__(self): return 'array(' + _str(self, ', ') + ')'
    def __format__(self, spec): return _str(self)

    def item(self, *a):
        b = self.view(np.ndarray)
        if a: return b.item(*a)
        if self.size != 1: raise ValueError('can only convert an array of size 1 to a Python scalar')
        return py(b.ravel()[0])

    def tolist(self):
        b = self.view(np.ndarray)
        return b.tolist()

    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        d = dtof(dt)
        if d == self.dtype and not copy: return self
        return _astype(self, d)

    def copy(self, order='C'):
        r = np.array(self.view(np.ndarray), dtype=object, copy=True, order=order).view(SymArray); r._dt = self._dt
        return r

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def __reduce__(self):
        return (_unpickle_arr, (C.E.intern(self.copy()), allc(self)))

    def __reduce_ex__(self, proto): return self.__reduce__()

    def fill(self, v): self[...] = v

    def nonzero(self): return _np('nonzero')(self)
    def tobytes(self, *a): return native(self).tobytes()

    def view(self, *a, **k):
        if not a and not k: return super().view()
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray): return super().view(*a)
        raise Gap('reinterpreting view')

    @property
    def real(self): return self
    @property
    def flat(self): return Flat(self)

    def dot(self, b, out=None): return _np('dot')(self, b)
    def __matmul__(self, b): return _np('matmul')(self, b)
    def __rmatmul__(self, b): return _np('matmul')(b, self)


class Flat:
    def __init__(self, a): self.a = a
    def __iter__(self):
        for x in self.a.view(np.ndarray).ravel(): yield out_cell(x, self.a.dtype)
    def __len__(self): return self.a.size
    def __getitem__(self, k): return self.a.ravel()[k]
    def __setitem__(self, k, v):
        idx = np.arange(self.a.size)[k]
        b = self.a
        vs = np.broadcast_to(obj(v), np.shape(idx)).ravel() if np.ndim(idx) else None
        for n, i in enumerate(np.atleast_1d(idx)):
            b[np.unravel_index(int(i), b.shape)] = vs[n] if vs is not None else v


def _unpickle_arr(k, conc):
    return C.E.interned(k).copy()


def _np(name):
    from . import npx
    return npx.get(name)


def _mk_method(name):
    def m(self, *a, **k): return _np(name)(self, *a, **k)
    m.__name__ = name
    return m


for _n in ('mean', 'sum', 'var', 'std', 'max', 'min', 'any', 'all', 'prod', 'cumsum', 'cumprod', 'argmax', 'argmin',
           'argsort', 'round', 'clip', 'ptp', 'searchsorted', 'take', 'compress', 'repeat', 'trace'):
    setattr(SymArray, _n, _mk_method(_n))


def _sort(self, axis=-1, kind=None, order=None):
    self[...] = _np('sort')(self, axis=axis)


SymArray.sort = _sort


def _str(a, sep=' '):
    """Text of an array; numpy prints 8 significant digits, so nearly equal values may share their text."""
    if allc(a):
        s = np.array2string(native(a), separator=sep)
        return s
    def one(x):
        return C.E.token_approx(x) if is_sym(x) and not isinstance(x, SB) else str(x)
    def rec(b):
        if b.ndim == 0: return one(b[()])
        return '[' + sep.join(rec(np.asarray(x, dtype=object)) if not isinstance(x, np.ndarray) else rec(x) for x in b) + ']'
    return rec(a.view(np.ndarray))


def new(shape, dt=F64):
    r = np.ndarray.__new__(SymArray, shape, dtype=object)
    r._dt = dt
    return r


def wrap(base, dt=None):
    """SymArray over an object ndarray."""
    r = base.view(SymArray)
    r._dt = dt
    return r


def obj(x):
    """Base object ndarray of an array-like (no copy if already one)."""
    if isinstance(x, np.ndarray):
        b = x.view(np.ndarray)
        if b.dtype == object: return b
        return from_native(b).view(np.ndarray)
    if is_sym(x):
        b = np.empty((), dtype=object); b[()] = x
        return b
    if isinstance(x, (list, tuple)):
        return sa(x).view(np.ndarray)
    b = np.empty((), dtype=object); b[()] = py(x)
    return b


def from_native(b):
    r = new(b.shape, b.dtype)
    rb = r.view(np.ndarray)
    if b.size:
        rb[...] = np.array(b.tolist(), dtype=object).reshape(b.shape) if b.dtype != object else b
    return r


def _shape_of(x):
    """Shape of a nested sequence; raises ValueError on ragged input like numpy does."""
    if isinstance(x, np.ndarray): return x.shape
    if isinstance(x, (list, tuple)) or (hasattr(x, '__array__') and not is_sym(x) and not isinstance(x, np.generic)):
        if not isinstance(x, (list, tuple)): return np.asarray(x.__array__()).shape
        if len(x) == 0: return (0,)
        s0 = _shape_of(x[0])
        for y in x[1:]:
            if _shape_of(y) != s0:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return (len(x),) + s0
    return ()


def _leaves(x):
    if isinstance(x, np.ndarray):
        yield from (x.view(np.ndarray).ravel() if x.dtype == object or isinstance(x, SymArray) else x.ravel().tolist()) if not isinstance(x, SymArray) else x.view(np.ndarray).ravel()
    elif isinstance(x, (list, tuple)):
        for y in x: yield from _leaves(y)
    elif hasattr(x, '__array__') and not is_sym(x) and not isinstance(x, np.generic):
        yield from _leaves(x.__array__())
    else: yield x


def _dts(x):
    if isinstance(x, SymArray): yield x.dtype
    elif isinstance(x, np.ndarray): yield x.dtype
    elif isinstance(x, (list, tuple)):
        for y in x: yield from _dts(y)
    elif hasattr(x, '__array__') and not is_sym(x) and not isinstance(x, np.generic): yield from _dts(x.__array__())
    else: yield cell_dt(x)


def sa(x, dt=None, copy=False, ndmin=0):
    """np.array / np.asarray."""
    dt = dtof(dt)
    if isinstance(x, SymArray):
        if dt is not None and dt != x.dtype: x = _astype(x, dt)
        elif copy: x = x.copy()
    elif isinstance(x, np.ndarray):
        if x.dtype == object and dt is None:
            b = x.copy() if copy else x
            x = b.view(SymArray); x._dt = None
        else:
            x = from_native(x)
            if dt is not None and dt != x._dt: x = _astype(x, dt)
    else:
        if isinstance(x, (range, map, zip)): x = list(x)
        if isinstance(x, np.generic): x_ = x.item(); d0 = x.dtype
        else: x_, d0 = x, None
        if isinstance(x_, str): raise Gap('string array')
        if isinstance(x_, (list, tuple)) and any(isinstance(l, str) for l in _leaves(x_)):
            return np.array(x_)
        if dt == OBJ:
            try: shape = _shape_of(x_)
            except ValueError: shape = None
            if shape is None:
                r = new((len(x_),), OBJ)
                for i, e in enumerate(x_): r.view(np.ndarray)[i] = e
                return r
        shape = _shape_of(x_)
        cells = list(_leaves(x_))
        d = d0
        if d is None:
            ds = list(_dts(x_))
            if not ds: d = F64
            elif any(q == OBJ for q in ds): d = OBJ
            else: d = ds[0]; [d := np.promote_types(d, q) for q in ds[1:]]
        r = new(shape, dt if dt is not None else d)
        b = r.view(np.ndarray)
        flat = b.reshape(-1)
        if shape == ():
            b[()] = conv_cell(py(cells[0]), r._dt)
        else:
            for i, c in enumerate(cells): flat[i] = conv_cell(py(c), r._dt)
        x = r
    while x.ndim < ndmin: x = x[None]
    return x


def _astype(a, d):
    r = new(a.shape, d)
    rb, ab = r.view(np.ndarray).reshape(-1), a.view(np.ndarray).reshape(-1)
    for i in range(ab.size): rb[i] = conv_cell(ab[i], d)
    return r


def allc(a):
    if isinstance(a, SymArray) or (isinstance(a, np.ndarray) and a.dtype == object):
        for x in a.view(np.ndarray).ravel():
            if is_sym(x): return False
            if isinstance(x, np.ndarray) and not allc(x): return False
        return True
    return True


def native(a):
    """Ordinary numpy array of an all-concrete SymArray."""
    if isinstance(a, SymArray):
        d = a.dtype
        b = a.view(np.ndarray)
        if d == OBJ: return b
        out = np.empty(a.shape, dtype=d)
        if a.size: out[...] = b.astype(d)
        return out
    return a


def finish(base, dt):
    """Result of an operation: scalar cell for 0-d, array otherwise."""
    if not isinstance(base, np.ndarray): return out_cell(base, dt)
    if base.ndim == 0: return out_cell(base[()], dt)
    return wrap(base, dt)


# ---------------------------------------------------------------- ufuncs

def _floor_i(x): return C.floor(x)


def _spec(name, n):
    return lambda *a: C.ufc(name, *a)


def _npf(uf):
    return uf


def expm1(a): return C.sub(C.exp(a), 1.0)
def log1p(a): return C.log(C.add(1.0, a))


LN2, LN10 = math.log(2.0), math.log(10.0)

UF = {
    'add': C.add, 'subtract': C.sub, 'multiply': C.mul, 'true_divide': C.div, 'divide': C.div, 'floor_divide': C.floordiv,
    'remainder': C.mod, 'mod': C.mod, 'power': C.pow_, 'float_power': C.pow_, 'negative': C.neg, 'positive': lambda a: a,
    'absolute': C.fabs, 'fabs': C.fabs, 'square': lambda a: C.mul(a, a), 'sqrt': C.sqrt, 'exp': C.exp, 'log': C.log,
    'expm1': expm1, 'log1p': log1p, 'log2': lambda a: C.div(C.log(a), LN2), 'log10': lambda a: C.div(C.log(a), LN10),
    'reciprocal': lambda a: C.div(1.0, a), 'sign': C.sign, 'floor': C.floor, 'ceil': C.ceil, 'trunc': C.trunc, 'rint': C.rint,
    'less': C.lt, 'less_equal': C.le, 'greater': C.gt, 'greater_equal': C.ge, 'equal': C.eq, 'not_equal': C.ne,
    'isnan': C.isnan, 'isinf': C.isinf, 'isfinite': C.isfinite,
    'logical_and': C.and_, 'logical_or': C.or_, 'logical_xor': C.xor, 'logical_not': C.not_,
    'maximum': C.max_, 'minimum': C.min_, 'fmax': C.fmax, 'fmin': C.fmin,
    'exp2': lambda a: C.exp(C.mul(a, LN2)), 'hypot': lambda a, b: C.sqrt(C.add(C.mul(a, a), C.mul(b, b))),
    'conjugate': lambda a: a,
    'heaviside': lambda a, b: C.ite(C.gt(a, 0), 1.0, C.ite(C.lt(a, 0), 0.0, C.ite(C.isnan(a), float('nan'), b))),
    'signbit': lambda a: C.lt(a, 0),
    'copysign': lambda a, b: C.ite(C.lt(b, 0), C.neg(C.fabs(a)), C.fabs(a)),
    'deg2rad': lambda a: C.mul(a, math.pi / 180), 'rad2deg': lambda a: C.mul(a, 180 / math.pi),
    'cbrt': lambda a: C.ite(C.lt(a, 0), C.neg(C.pow_(C.fabs(a), 1.0 / 3)), C.pow_(C.fabs(a), 1.0 / 3)),
    'logaddexp': lambda a, b: C.log(C.add(C.exp(a), C.exp(b))),
    'fmod': lambda a, b: C.sub(a, C.mul(b, C.trunc(C.div(a, b)))),
}


def _bit(x):
    """Is x an integer that can only be 0 or 1?"""
    if isinstance(x, (SB, bool, np.bool_)): return True
    if is_conc(x): return x in (0, 1)
    if not (isinstance(x, SV) and x.i): return False
    return C.E.satisfiable(C.z3.And(x.t != 0, x.t != 1)) is False


def _bitop(fb, fi):
    def g(*a):
        if all(isinstance(x, (SB, bool, np.bool_)) for x in a): return fb(*a)
        if all(is_conc(x) for x in a): return fi(*a)
        if len(a) == 2 and all(isinstance(x, (SB, bool, np.bool_)) or (is_conc(x) and x in (0, 1)) for x in a):
            return conv_cell(fb(*a), I64)
        if len(a) == 2 and all(_bit(x) for x in a):
            return conv_cell(fb(*[C.truth(x) for x in a]), I64)
        raise Gap('bitwise operation on symbolic integers')
    return g


UF['bitwise_and'] = _bitop(C.and_, np.bitwise_and)
UF['bitwise_or'] = _bitop(C.or_, np.bitwise_or)
UF['bitwise_xor'] = _bitop(C.xor, np.bitwise_xor)
UF['invert'] = _bitop(C.not_, np.invert)
UF['bitwise_not'] = UF['invert']
_IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_or': False, 'bitwise_and': True}


def _prep(x):
    """(object array, dtype spec for promotion)."""
    if isinstance(x, SymArray): return x.view(np.ndarray), x.dtype
    if isinstance(x, np.ndarray):
        s = sa(x)
        return s.view(np.ndarray), s.dtype
    if isinstance(x, (SV, SB)): return obj(x), x.dtype
    if isinstance(x, np.generic): return obj(x), x.dtype
    if isinstance(x, bool): return obj(x), BOOL
    if isinstance(x, int): return obj(x), int
    if isinstance(x, float): return obj(x), float
    if isinstance(x, (list, tuple)):
        s = sa(x)
        return s.view(np.ndarray), s.dtype
    if hasattr(x, '__array__'): return _prep(x.__array__())
    if x is None: raise TypeError('unsupported operand None')
    raise Gap('ufunc operand %r' % type(x))


def _dtobj(spec):
    return spec if isinstance(spec, np.dtype) else (I64 if spec is int else F64)


def result_dt(ufunc, specs, nout=1):
    if any(s == OBJ for s in specs): return (OBJ,) * nout
    r = ufunc.resolve_dtypes(tuple(specs) + (None,) * nout)
    return r[-nout:]


def apply_cells(f, arrs, nout=1):
    if not arrs: return f()
    uf = np.frompyfunc(f, len(arrs), nout)
    r = uf(*arrs)
    if nout == 1:
        if not isinstance(r, np.ndarray) or r.dtype != object:
            b = np.empty(np.broadcast_shapes(*[a.shape for a in arrs]), dtype=object)
            if b.ndim == 0: b[()] = r
            else: b[...] = r
            r = b
    return r


def vec(f, *args):
    """Cell function over broadcast arguments (dtype found by scanning)."""
    arrs = [obj(a) for a in args]
    r = apply_cells(f, arrs)
    return finish(r, None if r.ndim else cell_dt(r[()]))


def _tidy(b, dt):
    """Normalise computed cells to logical dtype."""
    flat = b.reshape(-1)
    for i in range(flat.size):
        x = flat[i]
        if isinstance(x, np.generic): x = x.item()
        if dt is not None and dt.kind in 'fiub': x = conv_cell(x, dt)
        flat[i] = x
    return flat.reshape(b.shape)


def dispatch_ufunc(uf, method, inputs, kw):
    name = uf.__name__
    kw = dict(kw)
    if method == '__call__':
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        dtype = dtof(kw.pop('dtype', None))
        kw.pop('casting', None); kw.pop('order', None); kw.pop('subok', None)
        if uf.nout == 2:
            if name == 'modf':
                t = UF['trunc']; a = inputs[0]
                return vec(lambda x: C.sub(x, C.trunc(x)), a), vec(C.trunc, a)
            if name == 'divmod':
                return dispatch_ufunc(np.floor_divide, '__call__', inputs, {}), dispatch_ufunc(np.remainder, '__call__', inputs, {})
            raise Gap('ufunc ' + name)
        if name == 'matmul': return _np('matmul')(*inputs)
        pr = [_prep(x) for x in inputs]
        arrs, specs = [p[0] for p in pr], [p[1] for p in pr]
        if name == 'power' and len(pr) == 2 and not isinstance(pr[1][1], type) and False: pass
        dt = result_dt(uf, specs)[0]
        if dtype is not None and dt.kind != 'b': dt = dtype
        o = out[0] if isinstance(out, tuple) else out
        if o is not None and isinstance(o, SymArray):
            if not np.can_cast(dt, o.dtype, 'same_kind'):
                raise np._core._exceptions._UFuncOutputCastingError(uf, 'same_kind', dt, o.dtype, 0)
        if all(allc(a) for a in arrs) and (where is True or allc(where)):
            nat = []
            for a, s in zip(arrs, specs):
                if s == OBJ: nat = None; break
                nat.append(np.array(a.tolist(), dtype=_dtobj(s)).reshape(a.shape) if isinstance(s, np.dtype) else s(a[()]) if a.ndim == 0 else a.astype(_dtobj(s)))
            if nat is not None:
                with np.errstate(all='ignore'):
                    r = uf(*nat, **({'dtype': dtype} if dtype is not None and dt.kind != 'b' else {}))
                res = from_native(np.asarray(r)).view(np.ndarray)
                return _store(res, dt, o, where)
        f = UF.get(name)
        if f is None:
            from . import env
            f = env.special_cell(name)
            if f is None: raise Gap('ufunc ' + name)
        if where is not True and o is not None:
            w = obj(where)
            g = lambda c, old, *xs: C.ite(c, f(*xs), old)
            res = apply_cells(g, [w, obj(o)] + arrs)
            return _store(_tidy(res, dt), dt, o, True)
        res = apply_cells(f, arrs)
        return _store(_tidy(res, dt), dt, o, where)
    if method == 'reduce':
        return _np_reduce(uf, *inputs, **kw)
    if method == 'accumulate':
        a = sa(inputs[0]); ax = kw.get('axis', inputs[1] if len(inputs) > 1 else 0)
        return accumulate(UF[name], a, ax)
    if method == 'outer':
        a, b = sa(inputs[0]), sa(inputs[1])
        return dispatch_ufunc(uf, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), kw)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        vals = inputs[2] if len(inputs) > 2 else None
        idx = sa(idx)
        vs = None if vals is None else np.broadcast_to(obj(vals), idx.shape)
        for k in np.ndindex(idx.shape):
            i = idx.view(np.ndarray)[k]
            cur = a[i]
            a[i] = UF[name](cur, vs[k]) if vs is not None else UF[name](cur)
        return None
    if method == 'reduceat':
        a, idx = sa(inputs[0]), inputs[1]
        ax = kw.get('axis', inputs[2] if len(inputs) > 2 else 0)
        from . import npx
        idx = [int(i) for i in np.ravel(npx._index_arg(idx))]
        m = _np('moveaxis')(a, ax, 0)
        parts = []
        for j, i in enumerate(idx):
            if not 0 <= i < len(m): raise IndexError('index %d out-of-bounds in %s.reduceat [0, %d)' % (i, name, len(m)))
            e = idx[j + 1] if j + 1 < len(idx) else len(m)
            parts.append(_np_reduce(uf, m[i:e], axis=0) if e > i else m[i])
        return _np('moveaxis')(_np('stack')(parts, axis=0), 0, ax)
    raise Gap('ufunc method ' + method)


def _store(res, dt, o, where):
    if o is None:
        if where is not True: raise Gap('where without out')
        return finish(res, dt)
    if not isinstance(o, SymArray):
        if isinstance(o, np.ndarray) and o.dtype == object:
            o[...] = res; return o
        if not allc(res): raise Gap('symbolic value stored into a native array')
        o[...] = res.astype(o.dtype); return o
    if where is not True:
        w = obj(where)
        res = apply_cells(C.ite, [w, res, o.view(np.ndarray)])
    b = np.broadcast_to(res, o.shape)
    if o.ndim == 0:
        o.view(np.ndarray)[()] = conv_cell(b[()], o.dtype)
        return o
    tmp = np.empty(o.shape, dtype=object)
    for k in np.ndindex(o.shape): tmp[k] = conv_cell(b[k], o.dtype)
    o.view(np.ndarray)[...] = tmp
    return o


def norm_axes(axis, ndim):
    if axis is None: return tuple(range(ndim))
    if isinstance(axis, (list, np.ndarray)) and not isinstance(axis, tuple):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(axis).__name__)
    ax = axis if isinstance(axis, tuple) else (axis,)
    r = []
    for a in ax:
        if isinstance(a, np.ndarray) and a.ndim: raise TypeError('only integer scalar arrays can be converted to a scalar index')
        a = int(a) if not isinstance(a, SV) else C.E.concretize_int(a)
        if a < -ndim or a >= ndim: raise np.exceptions.AxisError(a, ndim)
        a %= ndim
        if a in r: raise ValueError('duplicate value in \'axis\'')
        r.append(a)
    return tuple(r)


def lanes(a, axis):
    """(kept shape, array [kept..., pooled], axes)."""
    axes = norm_axes(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in axes]
    b = a.view(np.ndarray).transpose(keep + sorted(axes))
    ks = tuple(a.shape[i] for i in keep)
    n = int(np.prod([a.shape[i] for i in axes])) if axes else 1
    return ks, b.reshape(ks + (n,)), axes


def reduce_lanes(f, a, axis=None, keepdims=False, dt=None, out=None):
    """f maps a list of cells to one cell."""
    a = sa(a)
    ks, b, axes = lanes(a, axis)
    r = np.empty(ks, dtype=object)
    for k in np.ndindex(ks):
        v = f(list(b[k]))
        r[k] = v.item() if isinstance(v, np.generic) else v
    if dt is not None and dt.kind in 'fiub': r = _tidy(r, dt)
    if keepdims:
        r = r.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    if out is not None and out is not np._NoValue: return _store(r, dt, out[0] if isinstance(out, tuple) else out, True)
    return finish(r, dt if dt is not None else (None if r.ndim else cell_dt(r[()])))


def fold(f, cells, init=None):
    it = iter(cells)
    r = init
    if r is None:
        try: r = next(it)
        except StopIteration: raise ValueError('zero-size array to reduction operation which has no identity')
    for c in it: r = f(r, c)
    return r


def _np_reduce(uf, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
    name = uf.__name__
    a = sa(a)
    f = UF[name]
    kw = dict({} if initial is None or initial is np._NoValue else {'initial': initial}, **({} if out is None or out is np._NoValue else {'out': out}))
    if name == 'add': return _np('sum')(a, axis=axis, dtype=dtype, keepdims=keepdims, where=where, **kw)
    if name == 'maximum': return _np('max')(a, axis=axis, keepdims=keepdims, where=where, **kw)
    if name == 'minimum': return _np('min')(a, axis=axis, keepdims=keepdims, where=where, **kw)
    if name == 'multiply': return _np('prod')(a, axis=axis, dtype=dtype, keepdims=keepdims, where=where, **kw)
    if name in ('logical_or', 'logical_and'): return _np('any' if name == 'logical_or' else 'all')(a, axis=axis, keepdims=keepdims, where=where)
    if 'initial' in kw or (where is not True and where is not np._NoValue): raise Gap('ufunc.reduce keywords')
    dt = BOOL if name.startswith('logical') else a.dtype
    init = _IDENT.get(name)
    return reduce_lanes(lambda cs: fold(f, cs, init), a, axis, keepdims, dt, out)


def accumulate(f, a, axis):
    if axis is None: a, axis = a.ravel(), 0
    r = a.copy()
    b = np.moveaxis(r.view(np.ndarray), axis, 0)
    for i in range(1, b.shape[0]):
        for k in np.ndindex(b.shape[1:]): b[(i,) + k] = py(f(b[(i - 1,) + k], b[(i,) + k]))
    return r


# ---------------------------------------------------------------- indexing

def _has_sym(k):
    if isinstance(k, (SV, SB)): return True
    if isinstance(k, SymArray): return not allc(k)
    if isinstance(k, (list, tuple)): return any(_has_sym(x) for x in k)
    return False


def _nkey(k):
    """Native index of a concrete key component."""
    if isinstance(k, SymArray):
        n = native(k)
        return n
    if isinstance(k, np.ndarray) and k.dtype == object: return native(sa(k))
    if isinstance(k, tuple): return tuple(_nkey(x) for x in k)
    if isinstance(k, list):
        if len(k) == 0: return np.array([], dtype=int)
        return native(sa(k))
    if isinstance(k, slice):
        f = lambda v: C.E.concretize_int(v) if isinstance(v, SV) else (int(v) if isinstance(v, SymArray) else v)
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def _conc_mask(m):
    """Decide a symbolic boolean mask cell by cell."""
    if isinstance(m, SB): return bool(m)
    b = m.view(np.ndarray)
    out = np.empty(b.shape, dtype=bool)
    for k in np.ndindex(b.shape): out[k] = bool(b[k])
    return out


def _is_bool(k):
    return isinstance(k, SB) or (isinstance(k, SymArray) and k.dtype == BOOL)


def getitem(a, key):
    if isinstance(key, list) and _has_sym(key): key = sa(key)
    if not _has_sym(key):
        r = np.ndarray.__getitem__(a.view(np.ndarray), _nkey(key))
        if isinstance(r, np.ndarray) and a.dtype != OBJ:
            w = r.view(SymArray); w._dt = a._dt if a._dt is not None else a.dtype
            return w
        if isinstance(r, np.ndarray):
            if isinstance(r, SymArray): return r
            if r.dtype == object and np.shares_memory(r, a.view(np.ndarray)) or r.ndim: return wrap(r, a._dt)
        return out_cell(r, a.dtype)
    comps = key if isinstance(key, tuple) else (key,)
    comps = [sa(k) if isinstance(k, list) else k for k in comps]
    # boolean masks are decided by forking
    comps = [_conc_mask(k) if _has_sym(k) and _is_bool(k) else k for k in comps]
    sym = [i for i, k in enumerate(comps) if _has_sym(k)]
    if not sym: return getitem(a, tuple(comps))
    if len(sym) > 1 or any(isinstance(comps[i], slice) for i in sym):
        for i in sym[:-1] if not any(isinstance(comps[j], slice) for j in sym) else sym:
            comps[i] = _conc_index(comps[i]) if not isinstance(comps[i], slice) else _nkey(comps[i])
        return getitem(a, tuple(comps))
    i = sym[0]
    idx = comps[i]
    axis = _axis_of(comps, i, a.ndim)
    n = a.shape[axis]
    if idx.dtype.kind not in 'iu': raise IndexError('arrays used as indices must be of integer (or boolean) type')
    ib = obj(idx)
    norm = np.empty(ib.shape, dtype=object)
    for k in np.ndindex(ib.shape): norm[k] = _norm_index(ib[k], n)
    flat = norm.ravel()
    # which element of idx does each result cell use
    lab_shape = list(a.shape); lab_shape[axis] = max(1, flat.size)
    lab = np.broadcast_to(np.arange(max(1, flat.size)).reshape([-1 if j == axis else 1 for j in range(a.ndim)]), lab_shape)
    sel = np.arange(flat.size).reshape(ib.shape) if ib.ndim else 0
    labk = tuple(_nkey(c) if j != i else sel for j, c in enumerate(comps))
    labels = lab[labk]
    opts = []
    for v in range(n):
        kv = tuple(_nkey(c) if j != i else (np.full(ib.shape, v) if ib.ndim else v) for j, c in enumerate(comps))
        opts.append(a.view(np.ndarray)[kv])
    if not isinstance(labels, np.ndarray):
        return out_cell(_select(flat[int(labels)], [o for o in opts]), a.dtype)
    r = np.empty(labels.shape, dtype=object)
    for k in np.ndindex(labels.shape): r[k] = py(_select(flat[labels[k]], [o[k] for o in opts]))
    return wrap(r, a.dtype)


def _conc_index(k):
    if isinstance(k, SV): return C.E.concretize_int(k)
    b = k.view(np.ndarray)
    out = np.empty(b.shape, dtype=int)
    for q in np.ndindex(b.shape): out[q] = C.E.concretize_int(b[q])
    return out


def _axis_of(comps, i, ndim):
    used = 0
    for k in comps:
        if k is None or k is Ellipsis: continue
        used += k.ndim if isinstance(k, np.ndarray) and k.dtype == bool else 1
    ax = 0
    for j, k in enumerate(comps):
        if j == i: return ax
        if k is None: continue
        if k is Ellipsis: ax += ndim - used
        elif isinstance(k, np.ndarray) and k.dtype == bool: ax += k.ndim
        else: ax += 1


def _norm_index(x, n):
    if not is_sym(x):
        if x < -n or x >= n: raise IndexError('index %d is out of bounds for axis with size %d' % (x, n))
        return int(x) % n
    if C.E.fork(C.bz(C.or_(C.lt(x, -n), C.ge(x, n)))): raise IndexError('index out of bounds')
    return C.ite(C.lt(x, 0), C.add(x, n), x)


def _select(x, opts):
    if not is_sym(x): return opts[int(x)]
    r = opts[-1]
    for v in range(len(opts) - 2, -1, -1): r = C.ite(C.eq(x, v), opts[v], r)
    return r


def setitem(a, key, val):
    d = a.dtype
    if isinstance(key, list) and _has_sym(key): key = sa(key)
    if not _has_sym(key):
        nk = _nkey(key)
        tgt = a.view(np.ndarray)
        if d == OBJ:
            tgt[nk] = val.view(np.ndarray) if isinstance(val, SymArray) else val
            return
        vo = obj(val)
        if vo.ndim == 0:
            c = conv_cell(py(vo[()]), d)
            sub = tgt[nk]
            if isinstance(sub, np.ndarray):
                fillv = np.empty((), dtype=object); fillv[()] = c
                tgt[nk] = fillv
            else: tgt[nk] = c
            return
        cv = np.empty(vo.shape, dtype=object)
        for k in np.ndindex(vo.shape): cv[k] = conv_cell(py(vo[k]), d)
        tgt[nk] = cv
        return
    comps = key if isinstance(key, tuple) else (key,)
    comps = [sa(k) if isinstance(k, list) else k for k in comps]
    vo = obj(val)
    if len(comps) == 1 and _is_bool(comps[0]) and vo.ndim == 0:
        m = comps[0]
        c = conv_cell(py(vo[()]), d)
        tgt = a.view(np.ndarray)
        mb = obj(m)
        if mb.shape != tgt.shape[:mb.ndim]:
            raise IndexError('boolean index did not match indexed array')
        for k in np.ndindex(tgt.shape): tgt[k] = py(C.ite(mb[k[:mb.ndim]], c, tgt[k]))
        return
    comps = [_conc_mask(k) if _has_sym(k) and _is_bool(k) else k for k in comps]
    sym = [i for i, k in enumerate(comps) if _has_sym(k)]
    for i in sym: comps[i] = _conc_index(comps[i]) if not isinstance(comps[i], slice) else _nkey(comps[i])
    setitem(a, tuple(comps), val)
