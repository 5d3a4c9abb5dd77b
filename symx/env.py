"""Everything around numpy that the code under test touches: special functions, scipy.stats, pandas, sklearn, ray, tqdm,
properscoring, files.  scipy's distribution infrastructure and properscoring are executed from their installed sources; what
ends in compiled code (incomplete gamma, normal CDF, ...) is a contract on an uninterpreted function with its known laws."""
import builtins, inspect, io, math, numbers, os, pickle, sys, types
import numpy as np
from . import core as C
from . import arr as A
from . import npx
from . import rnd
from .core import SV, SB, Gap, is_sym, is_conc
from .arr import SymArray

# ---------------------------------------------------------------- special functions on cells


def phi(z):
    if C._isinf(z): return 1.0 if z > 0 else 0.0
    return C.ufc('phi', z)


def phiinv(q):
    q = C._denan(q)
    if C._isnan_c(q): return float('nan')
    if is_conc(q): return float(C.UF_CONC['phiinv'](float(q)))
    if C.E.fork(C.bz(C.le(q, 0))): return float('-inf') if C.E.fork(C.bz(C.eq(q, 0))) else float('nan')
    if C.E.fork(C.bz(C.ge(q, 1))): return float('inf') if C.E.fork(C.bz(C.eq(q, 1))) else float('nan')
    return C.ufc('phiinv', q)


def lgam(x):
    if C._isinf(x): return x
    if is_conc(x): return float(C.UF_CONC['lgam'](float(x)))
    x = C._denan(x)
    if is_conc(x): return x
    if C.E.fork(C.bz(C.le(x, 0))): raise Gap('lgamma of a non-positive number')
    return C.ufc('lgam', x)


def gammafn(x):
    if is_conc(x):
        import scipy.special as sp
        return float(sp.gamma(float(x)))
    x = C._denan(x)
    if is_conc(x): return x
    if C.E.fork(C.bz(C.ge(x, 171.624376956302))): return float('inf')    # overflow of double precision
    return C.exp(lgam(x))


def ginc(a, x):
    if is_conc(a) and is_conc(x):
        import scipy.special as sp
        return float(sp.gammainc(float(a), float(x)))
    a, x = C._denan(a), C._denan(x)
    if C._isnan_c(a) or C._isnan_c(x): return float('nan')
    if C._isinf(x): return 1.0 if x > 0 else float('nan')
    if C._isinf(a): return 0.0
    if C.E.fork(C.bz(C.lt(x, 0))): return float('nan')
    if C.E.fork(C.bz(C.le(a, 0))): raise Gap('gammainc of a non-positive shape')
    return C.ufc('ginc', a, x)


def gincc(a, x): return C.sub(1.0, ginc(a, x))


def gincinv(a, q):
    if is_conc(a) and is_conc(q):
        import scipy.special as sp
        return float(sp.gammaincinv(float(a), float(q)))
    a, q = C._denan(a), C._denan(q)
    if C._isnan_c(a) or C._isnan_c(q): return float('nan')
    if C.E.fork(C.bz(C.or_(C.lt(q, 0), C.gt(q, 1)))): return float('nan')
    if C.E.fork(C.bz(C.eq(q, 1))): return float('inf')
    return C.ufc('gincinv', a, q)


def betaln(a, b): return C.sub(C.add(lgam(a), lgam(b)), lgam(C.add(a, b)))


def xlogy(x, y):
    if C.E.fork(C.bz(C.and_(C.eq(x, 0), C.not_(C.isnan(y))))): return 0.0
    return C.mul(x, C.log(y))


SQRT2 = math.sqrt(2.0)
SPECIAL = {
    'gamma': gammafn, 'gammaln': lgam, 'loggamma': lgam, 'betaln': betaln, 'beta': lambda a, b: C.exp(betaln(a, b)),
    'gammainc': ginc, 'gammaincc': gincc, 'gammaincinv': gincinv, 'gammainccinv': lambda a, q: gincinv(a, C.sub(1.0, q)),
    'xlogy': xlogy, 'xlog1py': lambda x, y: xlogy(x, C.add(1.0, y)),
    'ndtr': phi, 'ndtri': phiinv, 'log_ndtr': lambda z: C.log(phi(z)),
    'erf': lambda z: C.sub(C.mul(2.0, phi(C.mul(z, SQRT2))), 1.0),
    'erfc': lambda z: C.sub(2.0, C.mul(2.0, phi(C.mul(z, SQRT2)))),
    'expit': lambda z: C.div(1.0, C.add(1.0, C.exp(C.neg(z)))),
    'stdtr': lambda df, t: C.ufc('tcdf', t, df),
}


def special_cell(name): return SPECIAL.get(name)


def vec(f):
    def g(*a): return A.vec(f, *a)
    return g


class _Special(types.ModuleType):
    def __getattr__(self, name):
        import scipy.special as sp
        v = getattr(sp, name)
        if isinstance(v, np.ufunc): return npx.UfWrap(v)
        if callable(v) and not isinstance(v, type): return concrete_only(v)
        return v


SPECIAL_MOD = _Special('scipy.special')


def concrete_only(f):
    def g(*a, **k):
        if npx._any_sym((a, k)): raise Gap('symbolic argument of ' + getattr(f, '__name__', 'function'))
        return npx.lift(f(*npx._nat(a), **npx._nat(k)))
    g.__name__ = getattr(f, '__name__', 'function')
    return g


# ---------------------------------------------------------------- scipy.stats

_ST = {}


def _build_stats():
    if _ST: return
    from . import loader
    import scipy.stats._distn_infrastructure as real
    mod = types.ModuleType('symx_distn_infrastructure')
    mod.__package__ = 'scipy.stats'
    mod.__file__ = real.__file__
    src = open(real.__file__).read()
    g = mod.__dict__
    g['__builtins__'] = loader.builtins_for()
    g['check_random_state'] = lambda s: s
    exec(compile(src, real.__file__, 'exec'), g)
    g['check_random_state'] = lambda s: s
    rvc = g['rv_continuous']
    rvc._construct_doc = lambda self, *a, **k: None
    rvc._construct_default_doc = lambda self, *a, **k: None

    def asz(size): return tuple(size) if hasattr(size, '__len__') else size

    class norm_gen(rvc):
        def _shape_info(self): return []
        def _rvs(self, size=None, random_state=None): return rnd.standard_normal(asz(size))
        def _pdf(self, x): return npx.get('exp')(-x ** 2 / 2.0) / math.sqrt(2 * math.pi)
        def _logpdf(self, x): return -x ** 2 / 2.0 - math.log(math.sqrt(2 * math.pi))
        def _cdf(self, x): return vec(phi)(x)
        def _logcdf(self, x): return npx.get('log')(vec(phi)(x))
        def _sf(self, x): return vec(phi)(-x)
        def _ppf(self, q): return vec(phiinv)(q)
        def _isf(self, q): return -vec(phiinv)(q)
        def _stats(self): return 0.0, 1.0, 0.0, 0.0

    class gamma_gen(rvc):
        def _shape_info(self): return [g['_ShapeInfo']('a', False, (0, math.inf), (False, False))]
        def _rvs(self, a, size=None, random_state=None):
            return _bcast(lambda u, aa: gincinv(aa, u), a, size=size)
        def _pdf(self, x, a): return npx.get('exp')(self._logpdf(x, a))
        def _logpdf(self, x, a): return vec(xlogy)(a - 1.0, x) - x - vec(lgam)(a)
        def _cdf(self, x, a): return vec(ginc)(a, x)
        def _sf(self, x, a): return vec(gincc)(a, x)
        def _ppf(self, q, a): return vec(gincinv)(a, q)
        def _isf(self, q, a): return vec(gincinv)(a, 1.0 - q)
        def _stats(self, a): return a, a, 2.0 / npx.get('sqrt')(a), 6.0 / a

    class truncnorm_gen(rvc):
        def _argcheck(self, a, b): return a < b
        def _shape_info(self):
            S = g['_ShapeInfo']
            return [S('a', False, (-math.inf, math.inf), (True, False)), S('b', False, (-math.inf, math.inf), (False, True))]
        def _get_support(self, a, b): return a, b
        def _pdf(self, x, a, b): return npx.get('exp')(-x ** 2 / 2.0) / math.sqrt(2 * math.pi) / (vec(phi)(b) - vec(phi)(a))
        def _cdf(self, x, a, b): return (vec(phi)(x) - vec(phi)(a)) / (vec(phi)(b) - vec(phi)(a))
        def _sf(self, x, a, b): return (vec(phi)(b) - vec(phi)(x)) / (vec(phi)(b) - vec(phi)(a))
        def _ppf(self, q, a, b): return vec(phiinv)(vec(phi)(a) + q * (vec(phi)(b) - vec(phi)(a)))
        def _rvs(self, a, b, size=None, random_state=None):
            return _bcast(lambda u, aa, bb: phiinv(C.add(phi(aa), C.mul(u, C.sub(phi(bb), phi(aa))))), a, b, size=size)

    class uniform_gen(rvc):
        def _shape_info(self): return []
        def _rvs(self, size=None, random_state=None): return rnd.random(asz(size))
        def _pdf(self, x): return 1.0 * (x == x)
        def _cdf(self, x): return x
        def _ppf(self, q): return q
        def _stats(self): return 0.5, 1.0 / 12, 0, -1.2

    class t_gen(rvc):
        def _shape_info(self): return [g['_ShapeInfo']('df', False, (0, math.inf), (False, False))]
        def _cdf(self, x, df): return vec(lambda t, d: C.ufc('tcdf', t, d))(x, df)
        def _sf(self, x, df): return vec(lambda t, d: C.ufc('tcdf', C.neg(t), d))(x, df)
        def _stats(self, df): raise Gap('t moments')

    _ST.update(rv_continuous=rvc, rv_frozen=g['rv_frozen'], norm=norm_gen(name='norm'), gamma=gamma_gen(a=0.0, name='gamma'),
               truncnorm=truncnorm_gen(name='truncnorm', momtype=1), uniform=uniform_gen(a=0.0, b=1.0, name='uniform'),
               t=t_gen(name='t'), rankdata=rankdata)


def _bcast(f, *params, size=None):
    """Independent draws with parameters broadcast to size."""
    ps = [A.obj(p) for p in params]
    s = rnd._size(size)
    if s is None: s = np.broadcast_shapes(*[p.shape for p in ps])
    ps = [np.broadcast_to(p, s) for p in ps]
    if s == (): return f(rnd.draw('unit'), *[p[()] for p in ps])
    r = A.new(s, A.F64)
    b = r.view(np.ndarray)
    for k in np.ndindex(s): b[k] = A.py(f(rnd.draw('unit'), *[p[k] for p in ps]))
    return r


def rankdata(a, method='average', *, axis=None, nan_policy='propagate'):
    if method not in ('average', 'min', 'max', 'dense', 'ordinal'): raise ValueError('unknown method "%s"' % method)
    a = A.sa(a)
    if axis is None: a, axis = a.ravel(), -1
    one = lambda b: A.conv_cell(b, A.I64)
    def f(cs):
        nan = A.fold(C.or_, [C.isnan(c) for c in cs], np.False_)
        if nan_policy == 'propagate':
            if bool(nan): return [float('nan')] * len(cs)
        elif bool(nan): raise Gap('rankdata(nan_policy)')
        out = []
        for i, c in enumerate(cs):
            less = A.fold(C.add, [one(C.lt(d, c)) for j, d in enumerate(cs) if j != i], 0)
            eq = A.fold(C.add, [one(C.eq(d, c)) for j, d in enumerate(cs) if j != i], 0)
            if method == 'min': r = C.add(less, 1)
            elif method == 'max': r = C.add(C.add(less, eq), 1)
            elif method == 'average': r = C.add(C.add(less, 1), C.div(C.mul(eq, 1.0), 2.0))
            elif method == 'ordinal':
                r = C.add(C.add(less, A.fold(C.add, [one(C.eq(cs[j], c)) for j in range(i)], 0)), 1)
            else:
                vals = []
                distinct = 0
                for j, d in enumerate(cs):
                    new = A.fold(C.and_, [C.ne(d, e) for e in cs[:j]], np.True_)
                    distinct = C.add(distinct, one(C.and_(new, C.lt(d, c))))
                r = C.add(distinct, 1)
            out.append(A.conv_cell(r, A.F64))
        return out
    return npx._along(f, a, axis, A.F64)


class _Stats(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        _build_stats()
        if name in _ST: return _ST[name]
        import scipy.stats as st
        v = getattr(st, name)
        if callable(v) and not isinstance(v, type):
            if hasattr(v, 'cdf'): raise Gap('scipy.stats.' + name)
            return concrete_only(v)
        return v


STATS_MOD = _Stats('scipy.stats')


class _Scipy(types.ModuleType):
    stats = STATS_MOD
    special = SPECIAL_MOD
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        import importlib
        return _ConcMod(importlib.import_module('scipy.' + name))


class _ConcMod(types.ModuleType):
    """A library module whose functions only work on concrete arguments."""
    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__['_r'] = real
    def __getattr__(self, name):
        v = getattr(self.__dict__['_r'], name)
        if isinstance(v, types.ModuleType): return _ConcMod(v)
        if callable(v) and not isinstance(v, type): return concrete_only(v)
        return v


SCIPY_MOD = _Scipy('scipy')


# ---------------------------------------------------------------- pandas (values decided by forking, then pandas itself)

def _conc_native(x):
    if isinstance(x, SymArray) or (isinstance(x, np.ndarray) and x.dtype == object):
        s = A.sa(x)
        if A.allc(s): return A.native(s)
        if s.dtype.kind == 'b': return A._conc_mask(s)
        if s.dtype.kind in 'iu': return A._conc_index(s)
        raise Gap('symbolic numbers in pandas')
    if isinstance(x, SB): return bool(x)
    if isinstance(x, SV):
        if x.i: return C.E.concretize_int(x)
        raise Gap('symbolic number in pandas')
    if isinstance(x, (list, tuple)): return type(x)(_conc_native(y) for y in x)
    if isinstance(x, dict): return {k: _conc_native(v) for k, v in x.items()}
    return x


class _Pandas(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        import pandas as pd
        v = getattr(pd, name)
        if not callable(v): return v
        def g(*a, **k): return v(*[_conc_native(x) for x in a], **{n: _conc_native(x) for n, x in k.items()})
        g.__name__ = name
        return g


PANDAS_MOD = _Pandas('pandas')


# ---------------------------------------------------------------- sklearn

def _dense(scores):
    """Dense ranks of symbolic scores, decided by forking (ROC depends on the order only)."""
    cs = [C._denan(c) for c in A.obj(scores).ravel()]
    if any(C._isnan_c(c) for c in cs): raise ValueError('Input contains NaN.')
    order = npx.cargsort(cs)
    rank = [0] * len(cs)
    r = 0
    rep = {}
    for n, i in enumerate(order):
        if n and not bool(C.eq(cs[i], cs[order[n - 1]])): r += 1
        rank[i] = r
        rep[r] = cs[i]
    return np.array(rank, dtype=float), rep


def _labels(y):
    cs = list(A.obj(y).ravel())
    out = []
    for c in cs:
        c = C._denan(c)
        if C._isnan_c(c): raise ValueError('Input contains NaN.')
        if isinstance(c, SB): out.append(bool(c))
        elif isinstance(c, SV):
            if not c.i:
                if C.E.fork(c.t == 0): out.append(0.0)
                elif C.E.fork(c.t == 1): out.append(1.0)
                else: raise Gap('labels')
            else: out.append(C.E.concretize_int(c))
        else: out.append(c)
    a = np.array(out)
    return a


class _Metrics(types.ModuleType):
    @staticmethod
    def roc_curve(y_true, y_score, *, pos_label=None, sample_weight=None, drop_intermediate=True):
        from sklearn import metrics
        if sample_weight is not None: raise Gap('roc_curve weights')
        y = _labels(y_true)
        s, rep = _dense(y_score)
        if len(y) != len(s): raise ValueError('Found input variables with inconsistent numbers of samples')
        fpr, tpr, thr = metrics.roc_curve(y, s, pos_label=pos_label, drop_intermediate=drop_intermediate)
        return npx.lift(fpr), npx.lift(tpr), A.sa([t if math.isinf(t) else rep[int(t)] for t in thr])

    @staticmethod
    def roc_auc_score(y_true, y_score, **k):
        from sklearn import metrics
        if k: raise Gap('roc_auc_score options')
        y = _labels(y_true)
        s, rep = _dense(y_score)
        return metrics.roc_auc_score(y, s)

    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        from sklearn import metrics
        return concrete_only(getattr(metrics, name))


METRICS_MOD = _Metrics('sklearn.metrics')


class KernelDensity:
    """Kernel density with the Gaussian kernel, exact formula over the exponential function."""
    def __init__(self, *, bandwidth=1.0, algorithm='auto', kernel='gaussian', **k):
        if kernel != 'gaussian': raise Gap('kernel ' + str(kernel))
        self.h = bandwidth
    def fit(self, X, y=None, sample_weight=None):
        X = A.sa(X)
        if X.ndim != 2: raise ValueError('Expected 2D array')
        if X.shape[1] != 1 or sample_weight is not None: raise Gap('KDE shape')
        if bool(npx.get('any')(npx.get('isnan')(X))): raise ValueError('Input contains NaN.')
        self.m = list(X.view(np.ndarray).ravel())
        return self
    def score_samples(self, X):
        X = A.sa(X)
        if X.ndim != 2: raise ValueError('Expected 2D array')
        out = []
        for x in X.view(np.ndarray).ravel():
            s = A.fold(C.add, [C.exp(C.mul(-0.5, C.mul(*(2 * [C.div(C.sub(x, m), self.h)])))) for m in self.m])
            out.append(C.log(C.div(s, C.mul(len(self.m) * math.sqrt(2 * math.pi), self.h))))
        return A.sa(out, A.F64)


NEIGH_MOD = types.ModuleType('sklearn.neighbors')
NEIGH_MOD.KernelDensity = KernelDensity
SKLEARN_MOD = types.ModuleType('sklearn')
SKLEARN_MOD.metrics = METRICS_MOD
SKLEARN_MOD.neighbors = NEIGH_MOD


# ---------------------------------------------------------------- tqdm, process pools and ray

class tqdm:
    """Progress bar: passes items through."""
    def __init__(self, iterable=None, *a, **k): self.it = iterable
    def __iter__(self): return iter(self.it)
    def __len__(self): return len(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def update(self, n=1): pass
    def close(self): pass
    def set_description(self, *a, **k): pass
    def set_postfix(self, *a, **k): pass
    @staticmethod
    def write(*a, **k): pass


def trange(*a, **k): return tqdm(range(*a))


def process_map(fn, *iterables, **k):
    """Ordered map over worker processes: functions, items and results travel as pickled copies."""
    if len(iterables) == 0: raise TypeError('process_map needs iterables')
    f = pickle.loads(pickle.dumps(fn))
    items = list(zip(*iterables))
    mw = k.get('max_workers')
    if mw is not None and mw <= 0: raise ValueError('max_workers must be greater than 0')
    out = []
    for it in items:
        args = pickle.loads(pickle.dumps(it))
        saved = dict(os.environ)
        try: r = f(*args)
        finally: restore_env(saved)
        out.append(pickle.loads(pickle.dumps(r)))
    return out


def restore_env(saved):
    for n in list(os.environ):
        if n not in saved: del os.environ[n]
    for n, v in saved.items():
        if os.environ.get(n) != v: os.environ[n] = v


TQDM_MOD = types.ModuleType('tqdm')
TQDM_AUTO = types.ModuleType('tqdm.auto')
TQDM_CONTRIB = types.ModuleType('tqdm.contrib')
TQDM_CONC = types.ModuleType('tqdm.contrib.concurrent')
for _m in (TQDM_MOD, TQDM_AUTO): _m.tqdm = tqdm; _m.trange = trange
TQDM_MOD.auto = TQDM_AUTO; TQDM_MOD.contrib = TQDM_CONTRIB; TQDM_CONTRIB.concurrent = TQDM_CONC
TQDM_CONC.process_map = process_map
TQDM_CONC.thread_map = lambda fn, *it, **k: [fn(*x) for x in zip(*it)]


class RayTaskError(Exception):
    pass


def make_ray(choose):
    """A ray whose tasks complete in an order picked by choose(n); objects travel as pickled copies."""
    R = types.ModuleType('ray')
    st = {'on': False, 'env': None, 'objs': {}, 'n': 0}

    class ObjectRef:
        def __init__(self, k): self.k = k
        def __hash__(self): return hash(self.k)
        def __eq__(self, o): return isinstance(o, ObjectRef) and o.k == self.k
        def __repr__(self): return 'ObjectRef(%d)' % self.k

    def init(*a, **k):
        if st['on'] and not k.get('ignore_reinit_error'):
            raise RuntimeError('Maybe you called ray.init twice by accident?')
        st['on'] = True
        st['env'] = dict(os.environ)

    def shutdown(*a, **k):
        st['on'] = False
        st['objs'].clear()

    def need():
        if not st['on']: init()

    def put(x):
        need()
        st['n'] += 1
        st['objs'][st['n']] = ('val', pickle.dumps(x))
        return ObjectRef(st['n'])

    def run(k):
        e = st['objs'].get(k)
        if e is None: raise RuntimeError('object lost')
        if e[0] != 'task': return
        _, f, blob = e
        a, kw = pickle.loads(blob)
        a = tuple(_deref(x) for x in a)
        kw = {n: _deref(x) for n, x in kw.items()}
        saved = dict(os.environ)
        restore_env(st['env'])
        try: r = ('val', pickle.dumps(f(*a, **kw)))
        except Exception as ex: r = ('err', ex)
        finally: restore_env(saved)
        st['objs'][k] = r

    def _deref(x): return get(x) if isinstance(x, ObjectRef) else x

    def get(x, timeout=None):
        if isinstance(x, (list, tuple)): return [get(y) for y in x]
        run(x.k)
        kind, v = st['objs'][x.k]
        if kind == 'err': raise v
        return pickle.loads(v)

    def wait(ids, num_returns=1, timeout=None, fetch_local=True):
        ids = list(ids)
        if not ids: raise ValueError('ray.wait called with an empty list')
        if len({i.k for i in ids}) != len(ids): raise ValueError('Wait requires a list of unique object refs')
        if num_returns > len(ids): raise ValueError('num_returns cannot be greater than the number of objects')
        done = []
        left = list(ids)
        for _ in range(num_returns):
            r = left.pop(choose(len(left)))
            run(r.k)
            done.append(r)
        return done, left

    class RemoteFunction:
        def __init__(self, f): self.f = f
        def options(self, **k): return self
        def remote(self, *a, **k):
            need()
            st['n'] += 1
            st['objs'][st['n']] = ('task', self.f, pickle.dumps((a, k)))
            return ObjectRef(st['n'])
        def __call__(self, *a, **k): raise TypeError('Remote functions cannot be called directly.')

    def remote(*a, **k):
        if a and callable(a[0]): return RemoteFunction(a[0])
        return lambda f: RemoteFunction(f)

    R.init, R.shutdown, R.put, R.get, R.wait, R.remote = init, shutdown, put, get, wait, remote
    R.is_initialized = lambda: st['on']
    R.ObjectRef = ObjectRef
    R._state = st
    # object references must survive pickling inside task arguments
    globals()['_RayRef'] = ObjectRef
    ObjectRef.__qualname__ = '_RayRef'; ObjectRef.__module__ = __name__
    return R


RAY_MOD = make_ray(lambda n: C.E.choose(n, 'order') if n > 1 else 0)


# ---------------------------------------------------------------- math

class _Math(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        v = getattr(math, name)
        if not callable(v): return v
        f = {'sqrt': C.sqrt, 'exp': C.exp, 'log': lambda x, b=None: C.log(x) if b is None else C.div(C.log(x), math.log(b)),
             'floor': lambda x: A.conv_cell(C.floor(x), A.I64), 'ceil': lambda x: A.conv_cell(C.ceil(x), A.I64),
             'trunc': lambda x: A.conv_cell(C.trunc(x), A.I64), 'fabs': C.fabs, 'isnan': lambda x: bool(C.isnan(x)),
             'isinf': lambda x: bool(C.isinf(x)), 'isfinite': lambda x: bool(C.isfinite(x)), 'pow': C.pow_, 'lgamma': lgam,
             'gamma': gammafn, 'erf': SPECIAL['erf'], 'erfc': SPECIAL['erfc'], 'fsum': lambda it: A.fold(C.add, list(it), 0.0),
             'log2': A.UF['log2'], 'log10': A.UF['log10'], 'hypot': lambda a, b: C.sqrt(C.add(C.mul(a, a), C.mul(b, b))),
             'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(C.le(C.fabs(C.sub(a, b)), C.max_(C.mul(rel_tol, C.max_(C.fabs(a), C.fabs(b))), abs_tol))),
             }.get(name)
        def g(*a, **k):
            a = [x.item() if isinstance(x, SymArray) else x for x in a]
            if not any(is_sym(x) for x in a) and not (name in ('fsum', 'prod')):
                return v(*a, **k)
            if f is None: raise Gap('math.' + name)
            return A.py(f(*a, **k))
        g.__name__ = name
        return g


MATH_MOD = _Math('math')


# ---------------------------------------------------------------- number types seen by the code

class _NumMeta(type):
    def __instancecheck__(cls, x): return cls._chk(x)
    def __subclasscheck__(cls, c):
        return c is cls or (isinstance(c, type) and issubclass(c, cls._symx_real_type))
    def __eq__(cls, o): return o is cls or o is cls._symx_real_type
    def __hash__(cls): return hash(cls._symx_real_type)
    def __call__(cls, *a, **k): return cls._make(*a, **k)
    def __getattr__(cls, n): return getattr(type.__getattribute__(cls, '_symx_real_type'), n)
    def __or__(cls, o): return (cls, o)
    def __ror__(cls, o): return (o, cls)
    def __repr__(cls): return repr(cls._symx_real_type)


class Float(metaclass=_NumMeta):
    _symx_real_type = float
    dtype = np.dtype('float64')
    __name__ = 'float'
    @staticmethod
    def _chk(x): return isinstance(x, float) or (isinstance(x, SV) and not x.i)
    @staticmethod
    def _make(x=0.0):
        if isinstance(x, np.ndarray):
            if x.size != 1: raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            x = A.obj(x).ravel()[0]
        if isinstance(x, SB): return A.conv_cell(x, A.F64)
        if isinstance(x, SV): return SV(x.t, x.nan, False)
        if isinstance(x, str):
            v = C.E.untoken(x) if C.E is not None else None
            if v is not None: return SV(v.t, v.nan, False)
        return float(x)


class Int(metaclass=_NumMeta):
    _symx_real_type = int
    dtype = np.dtype('int64')
    __name__ = 'int'
    @staticmethod
    def _chk(x): return isinstance(x, int) or (isinstance(x, SV) and x.i)
    @staticmethod
    def _make(x=0, *b):
        if isinstance(x, np.ndarray):
            if x.size != 1: raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            x = A.obj(x).ravel()[0]
        if is_sym(x): return A.conv_cell(x, A.I64)
        if isinstance(x, str) and not b:
            v = C.E.untoken(x) if C.E is not None else None
            if v is not None:
                if not v.i: raise ValueError('invalid literal for int()')
                return v
        return int(x, *b)


class Bool(metaclass=_NumMeta):
    _symx_real_type = bool
    dtype = np.dtype('bool')
    __name__ = 'bool'
    @staticmethod
    def _chk(x): return isinstance(x, (bool, SB))
    @staticmethod
    def _make(x=False): return bool(x)


_SVF = (np.floating, np.number, np.inexact, np.float64, np.generic, numbers.Number, numbers.Real, numbers.Complex)
_SVI = (np.integer, np.signedinteger, np.int64, np.number, np.generic, numbers.Number, numbers.Real, numbers.Integral, numbers.Complex)
_SBT = (np.bool_, np.generic)


def isinstance_(x, t):
    ts = []
    def flat(u):
        if builtins.isinstance(u, tuple):
            for y in u: flat(y)
        elif builtins.isinstance(u, types.UnionType): flat(u.__args__)
        else: ts.append(u)
    flat(t)
    for u in ts:
        if builtins.isinstance(x, SV):
            if u in (Float, Int): ok = u._chk(x)
            else: ok = u in (_SVI if x.i else _SVF) or u is SV
        elif builtins.isinstance(x, SB): ok = u is Bool or u in _SBT or u is SB
        else: ok = builtins.isinstance(x, u)
        if ok: return True
    return False


def sorted_(it, key=None, reverse=False):
    l = list(it)
    ks = [key(x) for x in l] if key else l
    if not any(is_sym(k) for k in ks): return sorted(l, key=key, reverse=reverse)
    order = npx.cargsort(ks if not reverse else [C.neg(k) for k in ks])
    return [l[i] for i in order]


# ---------------------------------------------------------------- files

class Crash(BaseException):
    """Simulated death of the process."""


class CrashFile:
    """Writable file with a buffer (as real ones have) whose process may die whenever the buffer is written out."""
    def __init__(self, f, ctl): self.f, self.ctl, self.buf, self.size = f, ctl, [], 0
    def write(self, b):
        self.buf.append(b if isinstance(b, str) else bytes(b))
        self.size += len(b)
        if self.size > 8192: self.flush()
        return len(b)
    def writelines(self, ls):
        for l in ls: self.write(l)
    def flush(self):
        if not self.buf: return
        b = self.buf[0][:0].join(self.buf)
        self.buf, self.size = [], 0
        p = self.ctl.point('write')
        if p == 1: raise Crash
        if p > 1:
            n = len(b)
            self.f.write(b[:n // 2] if p == 2 else b[:n - 1]); self.f.flush(); raise Crash
        self.f.write(b)
        self.f.flush()
    def close(self):
        try:
            if not self.ctl.dead: self.flush()
        finally: self.f.close()
    def __enter__(self): return self
    def __exit__(self, *a):
        self.close()
        return False
    def __del__(self):
        try:
            if not self.f.closed and not self.ctl.dead and self.buf:
                self.f.write(self.buf[0][:0].join(self.buf))
            self.f.close()
        except Exception: pass
    def seek(self, *a):
        self.flush()
        return self.f.seek(*a)
    def tell(self): return self.f.tell() + self.size
    def truncate(self, *a):
        self.flush()
        return self.f.truncate(*a)
    def __getattr__(self, n): return getattr(self.f, n)


class FileCtl:
    """Crash points of file operations; installed by a harness."""
    def __init__(self, choose, limit): self.choose, self.limit, self.n, self.dead = choose, limit, 0, False
    def point(self, kind):
        """0: go on; 1: die before the operation; 2, 3: die in the middle of it, or with all but the last byte written."""
        if self.dead: return 1          # nothing the process does after its death has an effect
        if self.n >= self.limit: return 0
        self.n += 1
        r = self.choose(4 if kind == 'write' else 2)
        if r: self.dead = True
        return r


FILES = {'ctl': None}


def guarded_open(file, mode='r', *a, **k):
    ctl = FILES['ctl']
    if ctl is None or not any(c in mode for c in 'wax+') : return _REAL_OPEN(file, mode, *a, **k)
    if ctl.point('open') == 1: raise Crash
    k2 = dict(k)
    f = _REAL_OPEN(file, mode, *a, **k2)
    return CrashFile(f, ctl)


_REAL_OPEN = open


def inode(p):
    try: return os.stat(p).st_ino
    except OSError: return None


_OSF = {}


def install_os_points():
    """os.replace and friends become crash points while a FileCtl is installed."""
    for name in ('replace', 'rename', 'remove', 'unlink', 'link'):
        if name in _OSF: continue
        real = getattr(os, name)
        _OSF[name] = real
        def g(*a, _r=real, **k):
            ctl = FILES['ctl']
            if ctl is not None and ctl.point('os') == 1: raise Crash
            return _r(*a, **k)
        g.__name__ = name
        setattr(os, name, g)


# ---------------------------------------------------------------- xarray and netCDF4 for opening chunk files

class FakeXr:
    """Set by the harness: xr.open_mfdataset, open_dataset, decode_cf, Dataset."""
    impl = None


class _Xr(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        if name[:1].isupper():
            from . import fakexr
            if name in ('Dataset', 'DataArray'): return getattr(fakexr, name)
            raise Gap('xarray.' + name)
        def g(*a, **k):
            f = getattr(FakeXr.impl, name, None) if FakeXr.impl is not None else None
            if f is None: raise Gap('xarray.' + name)
            return f(*a, **k)
        g.__name__ = name
        return g


XR_MOD = _Xr('xarray')
NC_MOD = types.ModuleType('netCDF4')


def _nc(*a, **k):
    if FakeXr.impl is None: raise Gap('netCDF4.Dataset')
    return FakeXr.impl.NcDataset(*a, **k)


NC_MOD.Dataset = _nc


# ---------------------------------------------------------------- properscoring (its own source)

_PS = {}


def properscoring():
    if 'm' in _PS: return _PS['m']
    from . import loader
    import importlib.util
    spec = importlib.util.find_spec('properscoring')
    d = os.path.dirname(spec.origin)
    pk = types.ModuleType('symx_properscoring')
    def load(name, extra=None):
        m = types.ModuleType('symx_properscoring.' + name)
        m.__package__ = 'symx_properscoring'
        p = os.path.join(d, name + '.py')
        m.__dict__['__builtins__'] = loader.builtins_for({'symx_properscoring._utils': pk.__dict__.get('_utils')})
        m.__file__ = p
        exec(compile(open(p).read(), p, 'exec'), m.__dict__)
        pk.__dict__[name] = m
        return m
    load('_utils')
    m = load('_crps')
    for n in ('crps_gaussian', 'crps_ensemble'): setattr(pk, n, getattr(m, n))
    _PS['m'] = pk
    return pk


class _PSMod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return getattr(properscoring(), name)


PS_MOD = _PSMod('properscoring')
