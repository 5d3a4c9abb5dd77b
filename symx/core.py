"""Symbolic scalars, path engine, special-function table.

A symbolic cell is a real-valued z3 term plus a 'missing' (NaN) bit.  Booleans are z3 Bool terms.
Concrete cells stay ordinary Python/numpy numbers and are computed by numpy itself.
"""
import math, re, time
from fractions import Fraction
import numpy as np
import z3


class Gap(BaseException):
    """The encoder met a construct it cannot encode."""


class Infeasible(BaseException):
    """The current path's condition is unsatisfiable (or excluded by an assumption)."""


class CounterExample(BaseException):
    def __init__(self, label, payload):
        super().__init__(label)
        self.label, self.payload = label, payload


class Budget(BaseException):
    """Time budget of this configuration ran out."""


E = None  # the engine of the run in progress


def set_engine(e):
    global E
    E = e


_num_cache = {}


def rv(x):
    """Exact z3 real numeral of a concrete finite number."""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    key = (type(x) is int, x)
    r = _num_cache.get(key)
    if r is None:
        if isinstance(x, (int, np.integer)):
            r = z3.RealVal(int(x))
        else:
            fr = x if isinstance(x, Fraction) else Fraction(float(x))
            r = z3.RealVal(fr.numerator) / z3.RealVal(fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)
            r = z3.simplify(r)
        _num_cache[key] = r
    return r


CONC = (int, float, bool, np.integer, np.floating, np.bool_)


def is_sym(x):
    return isinstance(x, (SV, SB))


def is_conc(x):
    return isinstance(x, CONC)


def _pyfloat(fr):
    try:
        f = float(fr)
    except OverflowError:
        return None
    return f if Fraction(f) == fr else None


def mk(t, nan=False, i=False):
    """Make a cell; falls back to a concrete number when the term is an exactly representable numeral."""
    if nan is True:
        return float('nan')
    if nan is not False:
        nan = z3.simplify(nan)
        if z3.is_true(nan):
            return float('nan')
        if z3.is_false(nan):
            nan = False
    if z3.is_rational_value(t) and nan is False:
        fr = Fraction(t.numerator_as_long(), t.denominator_as_long())
        if i and fr.denominator == 1:
            return int(fr)
        f = _pyfloat(fr)
        if f is not None:
            return f
    return SV(t, nan, i)


def mkb(b):
    if b is True or b is False:
        return np.bool_(b)
    b = z3.simplify(b)
    if z3.is_true(b):
        return np.True_
    if z3.is_false(b):
        return np.False_
    return SB(b)


def bz(b):
    """z3 Bool of a truth value."""
    if isinstance(b, SB):
        return b.b
    if isinstance(b, z3.BoolRef):
        return b
    if isinstance(b, SV):
        c = b.t != 0
        return c if b.nan is False else z3.Or(c, b.nan)
    return z3.BoolVal(bool(b))


def _or(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return z3.Or(a, b)


def parts(x):
    """(term, nan) of a finite-or-nan cell."""
    if isinstance(x, SV):
        return x.t, x.nan
    if isinstance(x, SB):
        return z3.If(x.b, rv(1), rv(0)), False
    if isinstance(x, (float, np.floating)):
        if math.isnan(x):
            return rv(0), True
        if math.isinf(x):
            raise Gap('infinity in symbolic arithmetic')
    return rv(x), False


def is_int(x):
    return (isinstance(x, SV) and x.i) or isinstance(x, (SB, int, bool, np.integer, np.bool_))


def _isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def _isnan_c(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def npop(ufunc, *a):
    with np.errstate(all='ignore'):
        a = [np.asarray(x) if not isinstance(x, np.generic) else x for x in a]
        r = ufunc(*a)
    return r


def _denan(x):
    """Resolve a symbolic missing bit by forking."""
    if isinstance(x, SV) and x.nan is not False:
        if E.fork(x.nan):
            return float('nan')
        return SV(x.t, False, x.i)
    return x


# ---------------------------------------------------------------- arithmetic

def add(a, b):
    if is_conc(a) and is_conc(b): return npop(np.add, a, b)
    if isinstance(a, SB) and isinstance(b, (SB, bool, np.bool_)) or isinstance(b, SB) and isinstance(a, (bool, np.bool_)):
        return or_(a, b)
    for x, y in ((a, b), (b, a)):
        if _isinf(x):
            y = _denan(y)
            return float('nan') if _isnan_c(y) else x
    (ta, na), (tb, nb) = parts(a), parts(b)
    return mk(ta + tb, _or(na, nb), is_int(a) and is_int(b))


def sub(a, b):
    if is_conc(a) and is_conc(b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            raise TypeError('numpy boolean subtract')
        return npop(np.subtract, a, b)
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
        raise TypeError('numpy boolean subtract')
    if _isinf(a) or _isinf(b):
        s = _denan(b if _isinf(a) else a)
        if _isnan_c(s): return float('nan')
        return a if _isinf(a) else -b
    (ta, na), (tb, nb) = parts(a), parts(b)
    return mk(ta - tb, _or(na, nb), is_int(a) and is_int(b))


def mul(a, b):
    if is_conc(a) and is_conc(b): return npop(np.multiply, a, b)
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
        return and_(a, b)
    for x, y in ((a, b), (b, a)):
        if _isinf(x):
            y = _denan(y)
            if _isnan_c(y): return float('nan')
            if E.fork(bz(eq(y, 0))): return float('nan')
            return x if E.fork(bz(gt(y, 0))) else -x
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SB) and isinstance(y, SV):
            return mk(z3.If(x.b, y.t, rv(0)), y.nan, y.i)
    (ta, na), (tb, nb) = parts(a), parts(b)
    return mk(ta * tb, _or(na, nb), is_int(a) and is_int(b))


def div(a, b):
    if is_conc(a) and is_conc(b): return npop(np.true_divide, a, b)
    if _isinf(b):
        a = _denan(a)
        return float('nan') if _isnan_c(a) else 0.0
    if _isinf(a):
        b = _denan(b)
        if _isnan_c(b): return float('nan')
        return a if E.fork(bz(ge(b, 0))) else -a
    if _isnan_c(a) or _isnan_c(b): return float('nan')
    if isinstance(b, SV) and b.i and not z3.is_const(b.t):          # integer denominators (counts) are split by value
        b = E.concretize_int(b)
        return div(a, b)
    (ta, na), (tb, nb) = parts(a), parts(b)
    zero = tb == 0
    if nb is not False: zero = z3.And(z3.Not(nb), zero)
    if E.fork(zero):
        a = _denan(a)
        if _isnan_c(a): return float('nan')
        if E.fork(bz(eq(a, 0))): return float('nan')
        return float('inf') if E.fork(bz(gt(a, 0))) else float('-inf')
    return mk(ta / tb, _or(na, nb), False)


def neg(a):
    if is_conc(a): return npop(np.negative, a)
    t, n = parts(a)
    return mk(-t, n, is_int(a))


def fabs(a):
    if is_conc(a): return npop(np.absolute, a)
    if isinstance(a, SB): return a
    t, n = parts(a)
    return mk(z3.If(t >= 0, t, -t), n, is_int(a))


def floor(a):
    if is_conc(a): return npop(np.floor, a)
    if is_int(a): return a
    t, n = parts(a)
    return mk(z3.ToReal(z3.ToInt(t)), n, False)


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    if is_conc(a): return npop(np.trunc, a)
    if is_int(a): return a
    t, n = parts(a)
    return mk(z3.If(t >= 0, z3.ToReal(z3.ToInt(t)), -z3.ToReal(z3.ToInt(-t))), n, False)


def rint(a):
    if is_conc(a): return npop(np.rint, a)
    if is_int(a): return a
    t, n = parts(a)
    f = z3.ToReal(z3.ToInt(t))
    d = t - f
    even = z3.ToInt(t) % 2 == 0
    return mk(z3.If(z3.Or(d < rv(0.5), z3.And(d == rv(0.5), even)), f, f + 1), n, False)


def floordiv(a, b):
    if is_conc(a) and is_conc(b): return npop(np.floor_divide, a, b)
    r = floor(div(a, b))
    if isinstance(r, SV): r = SV(r.t, r.nan, is_int(a) and is_int(b))
    return r


def mod(a, b):
    if is_conc(a) and is_conc(b): return npop(np.remainder, a, b)
    return sub(a, mul(b, floordiv(a, b)))


def pow_(a, b):
    if is_conc(a) and is_conc(b): return npop(np.power, a, b)
    if is_conc(b):
        bf = float(b)
        if bf == int(bf) and abs(bf) <= 8:
            n = int(abs(bf))
            r = 1 if is_int(a) else 1.0
            for _ in range(n): r = mul(r, a) if _ else (a if not isinstance(a, SB) else mul(a, 1))
            return r if bf >= 0 else div(1.0, r)
        if bf == 0.5: return sqrt(a)
        if bf == -0.5: return div(1.0, sqrt(a))
        if bf == 1.5: return mul(a, sqrt(a))
    a = _denan(a); b = _denan(b)
    if _isnan_c(a) or _isnan_c(b): return float('nan')
    if E.fork(bz(gt(a, 0))):
        return exp(mul(b, log(a)))
    if E.fork(bz(eq(a, 0))):
        if E.fork(bz(eq(b, 0))): return 1.0
        return 0.0 if E.fork(bz(gt(b, 0))) else float('inf')
    # negative base: real only for integral exponents
    if is_conc(b) and float(b) == int(float(b)):
        r = exp(mul(b, log(neg(a))))
        return r if int(b) % 2 == 0 else neg(r)
    return float('nan')


# ---------------------------------------------------------------- comparisons and booleans

def _cmp(a, b, uf, f, nanval):
    if is_conc(a) and is_conc(b): return np.bool_(npop(uf, a, b))
    for x, y, sw in ((a, b, False), (b, a, True)):
        if _isinf(x):
            t, n = parts(y)
            r = bool(uf(x, 0.0) if not sw else uf(0.0, x))
            if n is False: return np.bool_(r)
            return mkb(z3.If(n, z3.BoolVal(nanval), z3.BoolVal(r)))
    if isinstance(a, SB) and isinstance(b, SB) and uf in (np.equal, np.not_equal):
        return mkb(a.b == b.b if uf is np.equal else a.b != b.b)
    (ta, na), (tb, nb) = parts(a), parts(b)
    n = _or(na, nb)
    r = f(ta, tb)
    if n is False: return mkb(r)
    if n is True: return np.bool_(nanval)
    return mkb(z3.Or(n, r) if nanval else z3.And(z3.Not(n), r))


def lt(a, b): return _cmp(a, b, np.less, lambda x, y: x < y, False)
def le(a, b): return _cmp(a, b, np.less_equal, lambda x, y: x <= y, False)
def gt(a, b): return _cmp(a, b, np.greater, lambda x, y: x > y, False)
def ge(a, b): return _cmp(a, b, np.greater_equal, lambda x, y: x >= y, False)
def eq(a, b): return _cmp(a, b, np.equal, lambda x, y: x == y, False)
def ne(a, b): return _cmp(a, b, np.not_equal, lambda x, y: x != y, True)


def isnan(a):
    if isinstance(a, SV): return mkb(a.nan)
    if isinstance(a, SB): return np.False_
    return np.bool_(np.isnan(a))


def isinf(a):
    return np.bool_(_isinf(a))


def isfinite(a):
    if isinstance(a, (SV, SB)): return not_(isnan(a))
    return np.bool_(np.isfinite(a))


def truth(a):
    if isinstance(a, SB): return a
    if isinstance(a, SV): return mkb(bz(a))
    return np.bool_(bool(a))


def and_(a, b):
    a, b = truth(a), truth(b)
    if not is_sym(a): return b if a else np.False_
    if not is_sym(b): return a if b else np.False_
    return mkb(z3.And(a.b, b.b))


def or_(a, b):
    a, b = truth(a), truth(b)
    if not is_sym(a): return np.True_ if a else b
    if not is_sym(b): return np.True_ if b else a
    return mkb(z3.Or(a.b, b.b))


def xor(a, b):
    a, b = truth(a), truth(b)
    if not is_sym(a): return not_(b) if a else b
    if not is_sym(b): return not_(a) if b else a
    return mkb(z3.Xor(a.b, b.b))


def not_(a):
    a = truth(a)
    if not is_sym(a): return np.bool_(not a)
    return mkb(z3.Not(a.b))


def ite(c, a, b):
    c = truth(c)
    if not is_sym(c): return a if c else b
    if a is b: return a
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
        return mkb(z3.If(c.b, bz(a), bz(b)))
    if _isinf(a) or _isinf(b):
        return a if E.fork(c.b) else b
    if not (is_sym(a) or is_conc(a)) or not (is_sym(b) or is_conc(b)):
        return a if E.fork(c.b) else b
    (ta, na), (tb, nb) = parts(a), parts(b)
    if na is False and nb is False: n = False
    else: n = z3.If(c.b, z3.BoolVal(na) if isinstance(na, bool) else na, z3.BoolVal(nb) if isinstance(nb, bool) else nb)
    if na is True: ta = tb
    elif nb is True: tb = ta
    t = ta if ta.eq(tb) else z3.If(c.b, ta, tb)
    return mk(t, n, is_int(a) and is_int(b))


def max_(a, b):
    if is_conc(a) and is_conc(b): return npop(np.maximum, a, b)
    if _isnan_c(a) or _isnan_c(b): return float('nan')
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)): return or_(a, b)
    r = ite(ge(a, b), a, b)
    n = _or(parts(a)[1] if not _isinf(a) else False, parts(b)[1] if not _isinf(b) else False)
    if n is not False and isinstance(r, SV): r = mk(r.t, _or(r.nan, n), r.i)
    elif n is not False: r = ite(mkb(n), float('nan'), r)
    return r


def min_(a, b):
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)): return and_(a, b)
    if is_conc(a) and is_conc(b): return npop(np.minimum, a, b)
    return neg(max_(neg(a), neg(b)))


def fmax(a, b):
    a, b = _denan(a), _denan(b)
    if _isnan_c(a): return b
    if _isnan_c(b): return a
    return max_(a, b)


def fmin(a, b):
    a, b = _denan(a), _denan(b)
    if _isnan_c(a): return b
    if _isnan_c(b): return a
    return min_(a, b)


def sign(a):
    if is_conc(a): return npop(np.sign, a)
    return ite(gt(a, 0), 1.0, ite(lt(a, 0), -1.0, ite(isnan(a), float('nan'), 0.0)))


def narrow(a, bits):
    """Conversion to a narrower float: some nearby value (relative error up to 2^-bits)."""
    if is_conc(a): return float({24: np.float32, 11: np.float16}[bits](a))
    if is_int(a) and isinstance(a, SB): return mul(a, 1.0)
    t, n = parts(a)
    e = E.fresh('round', hidden=True)
    u = rv(Fraction(1, 2 ** bits))
    E.axiom(z3.And(e >= -u, e <= u))
    E.lossy += 1
    return mk(t * (1 + e), n, False)


# ---------------------------------------------------------------- special functions

def sqrt(a):
    if is_conc(a): return npop(np.sqrt, a)
    a = _denan(a)
    if is_conc(a): return npop(np.sqrt, a)
    t, _ = parts(a)
    if E.fork(t < 0): return float('nan')
    v = E.uf('sqrt', (t,))
    return mk(v)


def exp(a):
    if is_conc(a): return npop(np.exp, a)
    t, n = parts(a)
    inner = E.inverse_of('log', t)
    if inner is not None: return mk(inner, n)
    return mk(E.uf('exp', (t,)), n)


def log(a):
    if is_conc(a): return npop(np.log, a)
    a = _denan(a)
    if is_conc(a): return npop(np.log, a)
    t, _ = parts(a)
    if E.known_nonneg(t):
        pass
    elif E.fork(t < 0): return float('nan')
    inner = E.inverse_of('exp', t)
    if inner is not None: return mk(inner)
    if E.fork(t == 0): return float('-inf')
    return mk(E.uf('log', (t,)))


def ufc(name, *args):
    """Application of a special function from the table to cells."""
    if all(is_conc(a) for a in args):
        return float(UF_CONC[name](*[float(a) for a in args]))
    args = [_denan(a) for a in args]
    if any(_isnan_c(a) for a in args): return float('nan')
    if any(_isinf(a) for a in args): raise Gap('infinite argument of ' + name)
    return mk(E.uf(name, tuple(parts(a)[0] for a in args)))


def _lazy(fn):
    def g(*a):
        import scipy.special as sp
        import scipy.stats as st
        return fn(sp, st, *a)
    return g


UF_CONC = {
    'sqrt': lambda x: math.sqrt(x), 'exp': lambda x: float(np.exp(x)), 'log': lambda x: float(np.log(x)),
    'phi': _lazy(lambda sp, st, z: sp.ndtr(z)),          # standard normal CDF
    'ginc': _lazy(lambda sp, st, a, x: sp.gammainc(a, max(x, 0.0))),   # regularised lower incomplete gamma
    'gincinv': _lazy(lambda sp, st, a, q: sp.gammaincinv(a, q)),
    'lgam': _lazy(lambda sp, st, x: sp.gammaln(x)),
    'tcdf': _lazy(lambda sp, st, x, df: st.t.cdf(x, df)),
    'phiinv': _lazy(lambda sp, st, q: sp.ndtri(q)),
    'pow': lambda a, b: float(a) ** float(b),
}


# ---------------------------------------------------------------- scalar classes

class _Num:
    __slots__ = ()
    __array_priority__ = 1e9

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)

    def _b(self, o, f, r=False):
        from . import arr
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                o = o.item() if not isinstance(o.item(), float) else o.item()
            else:
                return arr.vec(f, o, self) if r else arr.vec(f, self, o)
        if not (is_sym(o) or is_conc(o)):
            return NotImplemented
        return f(o, self) if r else f(self, o)

    def __add__(self, o): return self._b(o, add)
    def __radd__(self, o): return self._b(o, add, True)
    def __sub__(self, o): return self._b(o, sub)
    def __rsub__(self, o): return self._b(o, sub, True)
    def __mul__(self, o): return self._b(o, mul)
    def __rmul__(self, o): return self._b(o, mul, True)
    def __truediv__(self, o): return self._b(o, div)
    def __rtruediv__(self, o): return self._b(o, div, True)
    def __floordiv__(self, o): return self._b(o, floordiv)
    def __rfloordiv__(self, o): return self._b(o, floordiv, True)
    def __mod__(self, o): return self._b(o, mod)
    def __rmod__(self, o): return self._b(o, mod, True)
    def __pow__(self, o): return self._b(o, pow_)
    def __rpow__(self, o): return self._b(o, pow_, True)
    def __lt__(self, o): return self._b(o, lt)
    def __le__(self, o): return self._b(o, le)
    def __gt__(self, o): return self._b(o, gt)
    def __ge__(self, o): return self._b(o, ge)
    def __eq__(self, o):
        r = self._b(o, eq)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._b(o, ne)
        return True if r is NotImplemented else r
    def __hash__(self): return 7
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return fabs(self)
    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)
    def __trunc__(self): return trunc(self)
    def __round__(self, n=None):
        if n: return div(rint(mul(self, 10 ** n)), 10 ** n)
        r = rint(self)
        return SV(r.t, r.nan, True) if isinstance(r, SV) and n is None else r
    def __float__(self): raise Gap('float() of a symbolic value at a C boundary')
    def __complex__(self): raise Gap('complex() of a symbolic value')
    def __index__(self): return E.concretize_int(self)
    def __int__(self): return E.concretize_int(self)
    def __divmod__(self, o): return self._b(o, floordiv), self._b(o, mod)
    def __str__(self): return E.token(self)
    def __repr__(self): return E.token(self)
    def __format__(self, spec): return E.token(self, spec)
    # numpy scalar look-alikes
    ndim = 0
    shape = ()
    size = 1
    def item(self): return self
    def conjugate(self): return self
    @property
    def real(self): return self
    def sqrt(self): return sqrt(self)
    def exp(self): return exp(self)
    def log(self): return log(self)
    def square(self): return mul(self, self)
    def mean(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def copy(self): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def any(self, *a, **k): return truth(self)
    def all(self, *a, **k): return truth(self)
    def squeeze(self, *a): return self
    def tolist(self): return self
    def astype(self, dt, *a, **k):
        from . import arr
        return arr.out_cell(arr.conv_cell(self, arr.dtof(dt)), arr.dtof(dt))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def reshape(self, *s):
        from . import arr
        return arr.sa(self).reshape(*s)
    def flatten(self):
        from . import arr
        return arr.sa(self).reshape(1)
    ravel = flatten
    def __reduce__(self): return (_unpickle, (E.intern(self),))


def _unpickle(k):
    return E.interned(k)


class SV(_Num):
    __slots__ = ('t', 'nan', 'i')

    def __init__(self, t, nan=False, i=False):
        self.t, self.nan, self.i = t, nan, i

    def __bool__(self): return E.fork(bz(self))
    @property
    def dtype(self): return np.dtype('int64' if self.i else 'float64')
    def is_integer(self): return truth(eq(self, floor(self)))


class SB(_Num):
    __slots__ = ('b',)

    def __init__(self, b): self.b = b
    def __bool__(self): return E.fork(self.b)
    def __invert__(self): return not_(self)
    def __and__(self, o): return self._b(o, and_)
    def __rand__(self, o): return self._b(o, and_, True)
    def __or__(self, o): return self._b(o, or_)
    def __ror__(self, o): return self._b(o, or_, True)
    def __xor__(self, o): return self._b(o, xor)
    def __rxor__(self, o): return self._b(o, xor, True)
    @property
    def dtype(self): return np.dtype('bool')


# ---------------------------------------------------------------- rational normal form

class TooBig(Exception):
    pass


class Poly:
    LIMIT = 3000

    @staticmethod
    def mul(a, b):
        r = {}
        if len(a) * len(b) > 40000: raise TooBig
        for ma, ca in a.items():
            for mb, cb in b.items():
                if not ma: m = mb
                elif not mb: m = ma
                else:
                    d = dict(ma)
                    for k, v in mb: d[k] = d.get(k, 0) + v
                    m = tuple(sorted(d.items()))
                c = r.get(m, 0) + ca * cb
                if c: r[m] = c
                else: r.pop(m, None)
        if len(r) > Poly.LIMIT: raise TooBig
        return r

    @staticmethod
    def add(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v: r[m] = v
            else: r.pop(m, None)
        if len(r) > Poly.LIMIT: raise TooBig
        return r


ONE = {(): Fraction(1)}


def ratform(t, memo, atoms=None):
    """(num, den) polynomials of a real z3 term; non-polynomial subterms are atoms."""
    k = t.get_id()
    r = memo.get(k)
    if r is not None: return r
    if z3.is_rational_value(t):
        fr = Fraction(t.numerator_as_long(), t.denominator_as_long())
        r = ({(): fr} if fr else {}, ONE)
    else:
        d = t.decl().kind() if z3.is_app(t) else None
        if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
            r = ratform(t.arg(0), memo)
            for j in range(1, t.num_args()):
                n2, d2 = ratform(t.arg(j), memo)
                n1, d1 = r
                s = 1 if d == z3.Z3_OP_ADD else -1
                if d1 == d2: r = (Poly.add(n1, n2, s), d1)
                else: r = (Poly.add(Poly.mul(n1, d2), Poly.mul(n2, d1), s), Poly.mul(d1, d2))
        elif d == z3.Z3_OP_MUL:
            r = (ONE, ONE)
            for j in range(t.num_args()):
                n2, d2 = ratform(t.arg(j), memo)
                r = (Poly.mul(r[0], n2), Poly.mul(r[1], d2))
        elif d == z3.Z3_OP_DIV:
            (n1, d1), (n2, d2) = ratform(t.arg(0), memo), ratform(t.arg(1), memo)
            if not n2: r = ({((k, 1),): Fraction(1)}, ONE); memo['atom', k] = t
            else: r = (Poly.mul(n1, d2), Poly.mul(d1, n2))
        elif d == z3.Z3_OP_UMINUS:
            n1, d1 = ratform(t.arg(0), memo)
            r = ({m: -c for m, c in n1.items()}, d1)
        elif d == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() <= 8:
            n1, d1 = ratform(t.arg(0), memo)
            r = (ONE, ONE)
            for _ in range(t.arg(1).numerator_as_long()):
                r = (Poly.mul(r[0], n1), Poly.mul(r[1], d1))
        else:
            r = ({((k, 1),): Fraction(1)}, ONE); memo['atom', k] = t
    memo[k] = r
    return r


# ---------------------------------------------------------------- engine

class Stats:
    def __init__(self):
        self.paths = self.forks = self.queries = self.sat = self.unsat = self.unknown = 0
        self.obligations = self.discharged = self.by_normal_form = self.by_tolerance = 0
        self.solver_s = 0.0
        self.infeasible = 0

    def merge(self, o):
        for k, v in o.items(): setattr(self, k, getattr(self, k, 0) + v)


class Engine:
    def __init__(self, deadline, timeout_ms=15000, tol=1e-6):
        self.stats = Stats()
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.tol = tol
        self.trail = []
        self.unknown_labels = []
        self.max_paths = 200000
        self._keep = []          # keeps z3 asts alive while their ids are used as keys
        self.cand = []           # candidate values of concretisations, by step
        self.inputs = {}

    # -- path life cycle
    def begin(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.pos = 0
        self.counter = {}
        self.inputs = {}         # name -> list of cells (with shape)
        self.draws = []
        self.tokens = []
        self.names_matter = False    # set when texts are compared (saved results): equal text exactly when equal value
        self.interns = []
        self.uf_apps = {}
        self.uf_defs = []        # in creation order: (var, name, args)
        self.uf_val = {}
        self.model = None
        self.conds = []
        self.memo = {}
        self.lossy = 0
        self.hidden = []
        self.path_obligations = 0
        self.seedpos = None
        self.drawmap = {}
        self.choices = []
        self.ncand = 0
        self.memmaps = {}
        self.drawpos = 0
        self.trace = []

    def advance(self):
        """Move to the next unexplored path; False when exhausted."""
        while self.trail:
            taken, alt = self.trail[-1]
            if alt:
                self.trail[-1] = (not taken, False)
                return True
            self.trail.pop()
        return False

    def check_time(self):
        if time.time() > self.deadline: raise Budget('time budget exhausted')

    def add(self, c):
        self.conds.append(c)
        self.solver.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)): self.model = None
            except z3.Z3Exception:
                self.model = None

    axiom = add

    def query(self, *extra, timeout=None):
        self.check_time()
        st = self.stats
        st.queries += 1
        t0 = time.time()
        self.solver.push()
        try:
            for c in extra: self.solver.add(c)
            if timeout: self.solver.set('timeout', timeout)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            if timeout: self.solver.set('timeout', self.timeout_ms)
        st.solver_s += time.time() - t0
        if r == z3.sat: st.sat += 1
        elif r == z3.unsat: st.unsat += 1
        else: st.unknown += 1
        return r, m

    def nra_query(self, *extra, timeout=20000):
        """Second opinion from nlsat on the whole path condition."""
        self.check_time()
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout)
        for c in self.conds: s.add(c)
        for c in extra: s.add(c)
        t0 = time.time()
        self.stats.queries += 1
        try:
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        self.stats.solver_s += time.time() - t0
        if r == z3.sat: self.stats.sat += 1
        elif r == z3.unsat: self.stats.unsat += 1
        else: self.stats.unknown += 1
        return r, m

    def fork(self, b):
        if isinstance(b, bool): return b
        b = z3.simplify(b)
        if z3.is_true(b): return True
        if z3.is_false(b): return False
        if self.pos < len(self.trail):
            taken = self.trail[self.pos][0]
            self.pos += 1
            self.add(b if taken else z3.Not(b))
            return taken
        self.check_time()
        t = f = None
        mt = mf = None
        if self.model is not None:
            v = self.model.eval(b, model_completion=True)
            if z3.is_true(v): t, mt = True, self.model
            elif z3.is_false(v): f, mf = True, self.model
        if t is None:
            t, mt = self._possible(b)
        if f is None:
            if not t: f = True
            else: f, mf = self._possible(z3.Not(b))
        if not t and not f: raise Infeasible
        taken = bool(t)
        self.stats.forks += 1
        if t and f: self.trail.append((taken, True))
        else: self.trail.append((taken, False))
        self.pos += 1
        c = b if taken else z3.Not(b)
        self.conds.append(c)
        self.solver.add(c)
        self.model = mt if taken else mf
        return taken

    def _possible(self, b):
        """Feasibility of one side of a branch (undecided counts as feasible)."""
        r, m = self.query(b, timeout=800)
        if r == z3.unknown:
            if self._abstract_unsat(b, self.conds): return False, None
            r, m = self.query(b, timeout=min(4000, self.timeout_ms))
        return r != z3.unsat, m

    def assume(self, c):
        c = bz(c)
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible
        self.add(c)
        if self.model is None and self.pos >= len(self.trail):
            r, m = self.query(timeout=min(1500, self.timeout_ms))
            if r == z3.unsat: raise Infeasible
            self.model = m

    def choose(self, n, name='choice'):
        """Nondeterministic choice 0..n-1 (environment: schedule, crash point, ...)."""
        k = self.counter.get(name, 0); self.counter[name] = k + 1
        v = z3.Real('%s!%d' % (name, k))
        self.add(z3.Or([v == j for j in range(n)]) if n > 1 else v == 0)
        for j in range(n - 1):
            if self.fork(v == j):
                self.choices.append((name, j)); return j
        self.choices.append((name, n - 1))
        return n - 1

    # -- variables
    def fresh(self, name, hidden=False):
        k = self.counter.get(name, 0); self.counter[name] = k + 1
        v = z3.Real('%s!%d' % (name, k))
        if hidden: self.hidden.append(v)
        return v

    def index_var(self, n, name='draw'):
        """Symbolic integer in 0..n-1 (as a real restricted to those values)."""
        if n <= 0: raise ValueError('empty range')
        if n == 1: return 0
        v = self.fresh(name)
        self.add(z3.Or([v == j for j in range(n)]))
        return SV(v, False, True)

    def concretize_int(self, x, limit=64):
        if is_conc(x): return int(x)
        t, n = parts(x)
        if n is not False and self.fork(n): raise ValueError('cannot convert float NaN to integer')
        for _ in range(limit):
            s = z3.simplify(t)
            if z3.is_rational_value(s):
                return int(Fraction(s.numerator_as_long(), s.denominator_as_long()))
            k = self.ncand
            self.ncand += 1
            if self.pos < len(self.trail):
                v = self.cand[k]       # same prefix, same candidate
            else:
                if self.model is None:
                    r, m = self.query()
                    if m is None: raise Gap('cannot concretise')
                    self.model = m
                v = self.model.eval(t, model_completion=True)
                if not z3.is_rational_value(v): raise Gap('cannot concretise algebraic value')
                v = Fraction(v.numerator_as_long(), v.denominator_as_long())
                del self.cand[k:]
                self.cand.append(v)
            if self.fork(t == rv(v)):
                if v.denominator != 1: raise Gap('a real number used as an integer')
                return int(v)
        raise Gap('too many integer values')

    # -- special functions
    def uf(self, name, args):
        args = tuple(z3.simplify(a) for a in args)
        apps = self.uf_apps.setdefault(name, [])
        inv = {'phi': 'phiinv', 'phiinv': 'phi', 'ginc': 'gincinv', 'gincinv': 'ginc'}.get(name)
        if inv is not None:
            # f(f^-1(x)) is x (the argument is syntactically the value of the inverse, same shape parameter)
            r = self.uf_val.get(args[-1].get_id())
            if r is not None and r[0] == inv and all(self.same(x, y) for x, y in zip(args[:-1], r[1][:-1])): return r[1][-1]
        if all(z3.is_rational_value(a) for a in args):
            fv = UF_CONC[name](*[float(Fraction(a.numerator_as_long(), a.denominator_as_long())) for a in args])
            if fv is not None and math.isfinite(fv) and name != 'sqrt':
                v = rv(fv)
                for pa, pv in apps: self._uf_pair(name, args, v, pa, pv)
                apps.append((args, v))
                self._uf_inverse(name, args, v)
                return v
        for pa, pv in apps:
            if all(self.same(x, y) for x, y in zip(args, pa)): return pv
        v = self.fresh('uf_' + name)
        self.uf_defs.append((v, name, args))
        self.uf_val[v.get_id()] = (name, args)
        self._keep.append(v)
        # axioms of a single application
        if name == 'sqrt': self.add(z3.And(v >= 0, v * v == args[0]))
        elif name == 'exp': self.add(z3.And(v > 0, z3.Implies(args[0] >= 0, v >= 1), z3.Implies(args[0] <= 0, v <= 1)))
        elif name == 'log': self.add(z3.And(z3.Implies(args[0] >= 1, v >= 0), z3.Implies(args[0] <= 1, v <= 0)))
        elif name == 'phi': self.add(z3.And(v > 0, v < 1, (v >= rv(0.5)) == (args[0] >= 0), (v == rv(0.5)) == (args[0] == 0)))
        elif name == 'tcdf': self.add(z3.And(v > 0, v < 1, (v >= rv(0.5)) == (args[0] >= 0), (v == rv(0.5)) == (args[0] == 0)))
        elif name == 'ginc': self.add(z3.And(v >= 0, v <= 1, z3.Implies(args[1] <= 0, v == 0), z3.Implies(args[1] > 0, z3.And(v > 0, v < 1))))
        elif name == 'gincinv': self.add(z3.And(v >= 0, (v == 0) == (args[1] == 0)))
        for pa, pv in apps: self._uf_pair(name, args, v, pa, pv)
        apps.append((args, v))
        self._uf_inverse(name, args, v)
        return v

    def _uf_inverse(self, name, args, v):
        """Relations between a distribution function and its inverse."""
        if name in ('gincinv', 'ginc'):
            for ga, gv in self.uf_apps.get('ginc' if name == 'gincinv' else 'gincinv', []):
                if name == 'gincinv': shape, x, y, q, r = ga[0], ga[1], gv, args[1], v
                else: shape, x, y, q, r = ga[0], args[1], v, ga[1], gv
                if z3.is_rational_value(y) and _sat01(y): continue
                self.add(z3.Implies(z3.And(shape == args[0], x >= 0), z3.And((y == q) == (x == r), (y < q) == (x < r))))
        elif name in ('phi', 'phiinv'):
            for ga, gv in self.uf_apps.get('phi' if name == 'phiinv' else 'phiinv', []):
                if name == 'phiinv': x, y, q, r = ga[0], gv, args[0], v
                else: x, y, q, r = args[0], v, ga[0], gv
                if z3.is_rational_value(y) and _sat01(y): continue
                self.add(z3.And((y == q) == (x == r), (y < q) == (x < r)))

    def _uf_pair(self, name, a, v, b, w):
        """Congruence and monotonicity of two applications."""
        if name in ('phi', 'ginc', 'tcdf', 'exp'):
            # values that double precision rounds to 0 or 1 are not compared strictly
            if (z3.is_rational_value(v) and _sat01(v, name)) or (z3.is_rational_value(w) and _sat01(w, name)): return
        if name in ('exp', 'log', 'phi'):
            self.add(z3.And((a[0] < b[0]) == (v < w), (a[0] == b[0]) == (v == w)))
            if name == 'phi': self.add((a[0] == -b[0]) == (v + w == 1))
        elif name == 'sqrt':
            self.add(z3.And((a[0] < b[0]) == (v < w), (a[0] == b[0]) == (v == w)))
        elif name == 'tcdf':
            self.add(z3.Implies(a[1] == b[1], z3.And((a[0] < b[0]) == (v < w), (a[0] == b[0]) == (v == w), z3.Implies(a[0] == -b[0], v + w == 1))))
        elif name == 'ginc':
            self.add(z3.Implies(a[0] == b[0], z3.And(z3.Implies(a[1] <= b[1], v <= w), z3.Implies(b[1] <= a[1], w <= v),
                     z3.Implies(z3.And(a[1] < b[1], b[1] > 0), v < w), z3.Implies(z3.And(b[1] < a[1], a[1] > 0), w < v))))
        elif name == 'gincinv':
            self.add(z3.Implies(a[0] == b[0], z3.And((a[1] < b[1]) == (v < w), (a[1] == b[1]) == (v == w))))
        elif name == 'phiinv':
            self.add(z3.And((a[0] < b[0]) == (v < w), (a[0] == b[0]) == (v == w)))
        else:
            self.add(z3.Implies(z3.And([x == y for x, y in zip(a, b)]), v == w))

    def inverse_of(self, name, t):
        """If t is (syntactically) the value of `name` at some argument, that argument."""
        t = z3.simplify(t)
        r = self.uf_val.get(t.get_id())
        if r is not None and r[0] == name: return r[1][0]
        for a, v in self.uf_apps.get(name, []):
            if v.eq(t): return a[0]
        return None

    def known_nonneg(self, t):
        t = z3.simplify(t)
        r = self.uf_val.get(t.get_id())
        return r is not None and r[0] in ('sqrt', 'exp', 'phi', 'ginc', 'tcdf', 'gincinv')

    def same(self, x, y):
        if x.eq(y): return True
        try:
            (n1, d1), (n2, d2) = ratform(x, self.memo), ratform(y, self.memo)
            self._keep.extend((x, y))
            if d1 == d2: return n1 == n2
            if not any(r[0] == 'sqrt' for r in self.uf_val.values()): return Poly.mul(n1, d2) == Poly.mul(n2, d1)
            return not self._unroot(Poly.add(Poly.mul(n1, d2), Poly.mul(n2, d1), -1))
        except TooBig:
            return False

    # -- strings and storage
    def token(self, x, spec=''):
        """Text of a symbolic number: equal text exactly when equal value (on this path)."""
        if isinstance(x, SB):
            return 'True' if self.fork(x.b) else 'False'
        x = _denan(x)
        if is_conc(x): return format(x, spec) if spec else str(x)
        m = re.fullmatch(r'\.(\d+)([feEgG])', spec) if spec else None
        if spec and not m and spec not in ('d', 'g', 'r', 's'): raise Gap('format ' + spec)
        if m or spec == 'g':
            d, k = (int(m.group(1)), m.group(2)) if m else (6, 'g')
            if d < 17:      # rounded text: some value within half a unit of the last printed digit
                y = self.fresh('text', hidden=True)
                e = rv(Fraction(1, 2 * 10 ** d)) if k in 'fF' else rv(Fraction(1, 2 * 10 ** max(d - (k in 'gG'), 0))) * _zabs(x.t)
                self.add(z3.And(y - x.t <= e, x.t - y <= e))
                x = SV(y, False, x.i)
        for k, y in enumerate(self.tokens):
            if y.i == x.i and (y.t.eq(x.t) or self.names_matter and self.fork(x.t == y.t)): return (TOKI if x.i else TOK) % k
        self.tokens.append(x)
        return (TOKI if x.i else TOK) % (len(self.tokens) - 1)

    def token_approx(self, x):
        """Text of a number inside a printed array (8 digits): very close values share it."""
        x = _denan(x)
        if is_conc(x): return str(x)
        if x.i: return self.token(x)
        u = rv(Fraction(1, 10 ** 10))
        for k, y in enumerate(self.tokens):
            if y.i: continue
            if y.t.eq(x.t) or self.names_matter and self.fork(z3.And(x.t - y.t < u, y.t - x.t < u)): return TOK % k
        self.tokens.append(x)
        return TOK % (len(self.tokens) - 1)

    def untoken(self, s):
        """The number a token text stands for, or None."""
        m = TOK_RE.fullmatch(s.strip())
        if not m: return None
        k = int(m.group(1) or m.group(2))
        return self.tokens[k] if k < len(self.tokens) else None

    def intern(self, x):
        self.interns.append(x)
        return len(self.interns) - 1

    def interned(self, k): return self.interns[k]

    # -- obligations
    def discharge_eq(self, a, b, label, tol_inputs=None):
        """Equality of two cells, missing bits included; tolerance as a second stage."""
        self.stats.obligations += 1
        self.path_obligations += 1
        if _isinf(a) or _isinf(b) or (is_conc(a) and is_conc(b)):
            if is_conc(a) and is_conc(b):
                ok = (_isnan_c(a) and _isnan_c(b)) or a == b or abs(float(a) - float(b)) <= self.tol * (1 + abs(float(b)))
            else: ok = False
            if ok:
                self.stats.discharged += 1; self.stats.by_normal_form += 1
                return
            return self._violated(z3.BoolVal(True), label)
        (ta, na), (tb, nb) = parts(a), parts(b)
        nan_same = na is nb or (not isinstance(na, bool) and not isinstance(nb, bool) and na.eq(nb))
        if nan_same and self.same(z3.simplify(ta), z3.simplify(tb)):
            self.stats.discharged += 1; self.stats.by_normal_form += 1
            return
        na_, nb_ = (z3.BoolVal(na) if isinstance(na, bool) else na), (z3.BoolVal(nb) if isinstance(nb, bool) else nb)
        bad = z3.Or(na_ != nb_, z3.And(z3.Not(na_), z3.Not(nb_), ta != tb))
        r, m = self._refute(bad, timeout=6000)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        # second stage: only differences beyond a tolerance on bounded inputs are violations
        d = ta - tb
        diff = z3.And(z3.Not(na_), z3.Not(nb_), z3.Or(d > rv(self.tol) * (1 + _zabs(tb)), d < -rv(self.tol) * (1 + _zabs(tb))))
        bad2 = z3.And(z3.Or(na_ != nb_, diff), *self.box())
        r2, m2 = self._refute(bad2, timeout=self.timeout_ms)
        if r2 == z3.unsat and r == z3.sat:
            self.stats.discharged += 1; self.stats.by_tolerance += 1
            return
        if r2 == z3.unsat:
            # exact query undecided but no difference above tolerance inside the box
            self.stats.discharged += 1; self.stats.by_tolerance += 1
            return
        if r2 == z3.sat or r == z3.sat:
            big = z3.And(z3.Or(na_ != nb_, z3.And(z3.Not(na_), z3.Not(nb_), z3.Or(d > rv(0.01), d < -rv(0.01)))), *self.box())
            return self._violated(bad2 if r2 == z3.sat else bad, label, prefer=big)
        self.unknown_labels.append(label)
        self.stats.unknown += 0

    def discharge(self, c, label):
        self.stats.obligations += 1
        self.path_obligations += 1
        raw = bz(c)
        c = z3.simplify(raw)
        if z3.is_true(c):
            self.stats.discharged += 1; self.stats.by_normal_form += 1
            return
        if self._abstract_unsat(z3.Not(raw), []):
            self.stats.discharged += 1
            return
        bad = z3.Not(c)
        r, m = self._refute(bad, timeout=self.timeout_ms)
        if r == z3.unsat:
            self.stats.discharged += 1
        elif r == z3.sat:
            self._violated(bad, label)
        else:
            self.unknown_labels.append(label)

    def satisfiable(self, c):
        """Is c possible on this path?  True/False/None(unknown)."""
        r, m = self.query(bz(c))
        if r == z3.unknown: r, m = self.nra_query(bz(c))
        return True if r == z3.sat else False if r == z3.unsat else None

    def _refute(self, bad, timeout):
        r, m = self.query(bad, timeout=min(timeout, 4000))
        if r == z3.unknown:
            if self._abstract_unsat(bad, self.conds): return z3.unsat, None
            r, m = self.nra_query(bad, timeout=timeout)
        return r, m

    def _abstract_unsat(self, bad, conds):
        """Is bad impossible whatever the values of its nonlinear subterms?  (Sound: it only forgets facts.)"""
        return self._abstract_terms(bad, conds) or self._abstract_monomials(bad, conds)

    def _abstract_monomials(self, bad, conds):
        """Second form: every polynomial atom becomes linear in its monomials, each monomial a variable; even
        monomials are not negative and the square of a root is its argument."""
        mono, memo, side, keep = {}, {}, [], []
        nonlinear = [False]
        terms = {}

        def atom(t):
            k = t.get_id()
            if k in terms: return terms[k]
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                v = z3.FreshReal('ite')
                terms[k] = v
                side.append(z3.If(go(t.arg(0)), v == lin(t.arg(1)), v == lin(t.arg(2))))
            elif z3.is_app(t) and t.num_args() == 0: terms[k] = v = t
            else:
                v = z3.FreshReal('abs')
                terms[k] = v
                nonlinear[0] = True
            return v

        def polyz(p):
            out = []
            for m, c in p.items():
                if not m: out.append(rv(c)); continue
                if len(m) == 1 and m[0][1] == 1: v = atom(self.memo['atom', m[0][0]])
                else:
                    v = mono.get(m)
                    if v is None:
                        v = mono[m] = z3.FreshReal('mon')
                        nonlinear[0] = True
                        if all(e % 2 == 0 for _, e in m): side.append(v >= 0)
                out.append(rv(c) * v)
            return z3.Sum(out) if out else rv(0)

        def rat(t):
            n, d = ratform(t, self.memo)
            self._keep.append(t)
            return self._unroot(n), d

        def lin(t):
            n, d = rat(t)
            if len(d) == 1 and () in d: return polyz({m: c / d[()] for m, c in n.items()})
            if not d: return atom(t)
            # one variable per quotient of a monomial and the (scaled) denominator
            lead = d[min(d)]
            dk = frozenset((m, c / lead) for m, c in d.items())
            out = []
            for m, c in n.items():
                v = mono.get((m, dk))
                if v is None:
                    v = mono[m, dk] = z3.FreshReal('quo')
                    nonlinear[0] = True
                out.append(rv(c / lead) * v)
            return z3.Sum(out) if out else rv(0)

        CMP = {z3.Z3_OP_LE: lambda x: x <= 0, z3.Z3_OP_LT: lambda x: x < 0, z3.Z3_OP_GE: lambda x: x >= 0, z3.Z3_OP_GT: lambda x: x > 0, z3.Z3_OP_EQ: lambda x: x == 0}
        def go(t):
            k = t.get_id()
            if k in memo: return memo[k]
            keep.append(t)
            d = t.decl().kind()
            if d in CMP and z3.is_arith(t.arg(0)):
                n, e = rat(t.arg(0) - t.arg(1))
                if len(e) == 1 and () in e: r = CMP[d](polyz({m: c / e[()] for m, c in n.items()}))
                elif d == z3.Z3_OP_EQ: r = lin(t.arg(0)) == lin(t.arg(1))
                else: r = CMP[d](lin(t.arg(0)) - lin(t.arg(1)))
            elif t.num_args() == 0: r = t
            elif d == z3.Z3_OP_DISTINCT and z3.is_arith(t.arg(0)): r = z3.Distinct([lin(c) for c in t.children()])
            else:
                ch = [go(c) for c in t.children()]
                r = z3.And(ch) if d == z3.Z3_OP_AND else z3.Or(ch) if d == z3.Z3_OP_OR else t.decl()(*ch)
            memo[k] = r
            return r

        try:
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(go(bad))
            for c in conds: s.add(go(c))
            for c in side: s.add(c)
            if not nonlinear[0]: return False
            t0 = time.time()
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0
        except (z3.Z3Exception, RecursionError, TooBig, ZeroDivisionError): return False
        if r == z3.unsat: self.stats.unsat += 1; return True
        if r == z3.sat: self.stats.sat += 1
        else: self.stats.unknown += 1
        return False

    def _unroot(self, p):
        """Rewrite v*v into the argument of v where v is a square root (arguments that are polynomials only)."""
        roots = [k for k, r in self.uf_val.items() if r[0] == 'sqrt']
        if not roots: return p
        for k in sorted(roots, reverse=True):
            while any(e >= 2 for m in p for x, e in m if x == k):
                n, d = ratform(self.uf_val[k][1][0], self.memo)
                if not (len(d) == 1 and () in d): break
                q = {}
                for m, c in p.items():
                    e = dict(m).get(k, 0)
                    if e >= 2:
                        m2 = tuple((x, y - 2 if x == k else y) for x, y in m if not (x == k and y == 2))
                        q = Poly.add(q, Poly.mul({m2: c / d[()]}, n))
                    else: q = Poly.add(q, {m: c})
                p = q
        return p

    def _abstract_terms(self, bad, conds):
        """First form: syntactically equal nonlinear subterms share a variable."""
        memo, found = {}, {}
        def go(t):
            k = t.get_id()
            if k in memo: return memo[k]
            if not z3.is_app(t) or t.num_args() == 0: r = t
            else:
                d = t.decl().kind()
                ch = t.children()
                if d == z3.Z3_OP_POWER or d == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in ch) > 1 or \
                        d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_rational_value(ch[1]):
                    if d == z3.Z3_OP_MUL:
                        num = [c for c in ch if z3.is_rational_value(c)]
                        key = tuple(sorted(c.get_id() for c in ch if not z3.is_rational_value(c)))
                    else: num, key = [], (d,) + tuple(c.get_id() for c in ch)
                    if key not in found: found[key] = z3.FreshReal('abs')
                    r = found[key]
                    for c in num: r = c * r
                else:
                    nch = [go(c) for c in ch]
                    r = t if all(a.eq(b) for a, b in zip(nch, ch)) else t.decl()(*nch) if d not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                        {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}[d](*nch) if d in (z3.Z3_OP_AND, z3.Z3_OP_OR) else z3.Sum(nch) if d == z3.Z3_OP_ADD else z3.Product(nch)
            memo[k] = r
            return r
        try:
            g = go(bad)
            if not found: return False
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(g)
            for c in conds: s.add(go(c))
            t0 = time.time()
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0
        except (z3.Z3Exception, RecursionError): return False
        if r == z3.unsat: self.stats.unsat += 1; return True
        if r == z3.sat: self.stats.sat += 1
        else: self.stats.unknown += 1
        return False

    def box(self):
        """Inputs within a moderate range (used for tolerance queries and readable counterexamples)."""
        B = rv(10 ** 6)
        out = []
        for name, (shape, cells) in self.inputs.items():
            for c in cells:
                if isinstance(c, SV) and not z3.is_rational_value(c.t): out += [c.t <= B, c.t >= -B]
        return out

    def _violated(self, bad, label, prefer=None):
        model = None
        nice = []
        for name, (shape, cells) in self.inputs.items():
            for c in cells:
                if isinstance(c, SV) and not z3.is_rational_value(c.t): nice += [c.t <= 50, c.t >= -50]
        models = []
        for extra in ([prefer] + nice if prefer is not None else None, nice, [prefer] if prefer is not None else None, []):
            if extra is None: continue
            r, m = self.query(bad, *extra, timeout=4000)
            if r == z3.unknown: r, m = self.nra_query(bad, *extra, timeout=4000)
            if m is not None: models.append(self.snapshot(m))
            if len(models) >= 3: break
        if not models:
            self.unknown_labels.append(label)
            return
        raise CounterExample(label, models)

    # -- models
    def snapshot(self, m):
        return {'inputs': {n: {'shape': list(s), 'cells': [self.value(c, m) for c in cells]} for n, (s, cells) in self.inputs.items()},
                'draws': [[k, [self.value(c, m) for c in cs]] for k, cs in self.draws],
                'choices': list(self.choices)}

    def value(self, c, m):
        if isinstance(c, SB): return bool(z3.is_true(m.eval(c.b, model_completion=True)))
        if isinstance(c, SV):
            if c.nan is not False and z3.is_true(m.eval(c.nan, model_completion=True)): return 'nan'
            return num(m.eval(c.t, model_completion=True))
        if isinstance(c, (np.bool_, bool)): return bool(c)
        if isinstance(c, (int, np.integer)): return int(c)
        if isinstance(c, (float, np.floating)): return 'nan' if math.isnan(c) else float(c)
        return c

    def path_model(self):
        if self.model is not None: return self.model
        r, m = self.query(timeout=4000)
        if m is None and r == z3.unknown: r, m = self.nra_query(timeout=4000)
        return m


def num(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise Gap('model value %s' % v)


def _zabs(t): return z3.If(t >= 0, t, -t)


def _sat01(t, name='phi'):
    v = float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if name == 'exp': return v < 1e-300
    return v < 1e-14 or v > 1 - 1e-14


TOK = '7%05d777.5'   # looks like an ordinary number; see Engine.token
TOKI = '7%05d777'
TOK_RE = re.compile(r'7(\d{5})777\.5|7(\d{5})777')
