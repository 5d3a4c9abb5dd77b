"""What a property harness sees.  The same harness runs symbolically (SymX) and on the real package (ConcX)."""
import json, math, os, random, shutil, sys, tempfile
import numpy as np

try:
    import z3
    from . import core as C, arr as A, npx, env, rnd, loader
except ImportError:      # never in practice: both modes have the solver library on their path
    raise

DEFAULT_ENV = {
    'pyanen_ens_to_prob_method': 'moments', 'pyanen_kde_bandwidth': '0.01', 'pyanen_kde_kernel': 'gaussian', 'pyanen_kde_samples': '1000',
    'pyanen_kde_multiply_spread': '5', 'pyanen_boot_confidence': '0.95', 'pyanen_boot_repeats': '1000', 'pyanen_boot_samples': '300',
    'pyanen_tqdm_disable': 'True', 'pyanen_tqdm_leave': 'False', 'pyanen_tqdm_workers': '1', 'pyanen_tqdm_map_axis': '-1',
    'pyanen_tqdm_chunksize': '1', 'pyanen_use_tensorflow_math': 'False', 'pyanen_skip_nan': 'False',
    'pyanen_split_crps_ensemble_along_0': 'False', 'pyanen_integrate_range_multiplier': '5',
    'pyanen_integrate_with_less_memory': 'False', 'pyanen_integrate_wdir': ''}


class Skip(BaseException):
    """This concrete input does not satisfy the harness's assumptions (or is too close to a decision boundary)."""


class Missing(BaseException):
    """A public name the harness needs does not exist."""


class Violated(BaseException):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label, self.detail = label, detail


def reset_env():
    for k in [k for k in os.environ if k.startswith('pyanen_')]: del os.environ[k]
    os.environ.update(DEFAULT_ENV)


class Base:
    variant = None

    """Shared by both modes."""

    def __init__(self, scratch):
        self._scratch = scratch
        self.obs = []

    @property
    def tmp(self): return self._scratch
    def lay(self, a): return laid_out(a, self.variant) if self.variant in LAYOUTS and a.ndim else a

    def setenv(self, **kw):
        for k, v in kw.items(): os.environ['pyanen_' + k] = str(v)

    def cls(self, name):
        v = getattr(self.pk, name, None)
        if not isinstance(v, type):
            v = None
            try: v = getattr(self.mod(name), name, None)
            except Missing: v = None
        if v is None: raise Missing(name)
        return v

    def fn(self, module, name):
        v = getattr(self.mod(module), name, None)
        if v is None: raise Missing(module + '.' + name)
        return v

    # -- oracle arithmetic over cells
    def sum(self, xs):
        xs = list(xs)
        r = xs[0] if xs else 0.0
        for x in xs[1:]: r = r + x
        return r

    def mean(self, xs):
        xs = list(xs)
        return self.sum(xs) / len(xs)

    def count(self, bs): return self.sum([self.ite(b, 1.0, 0.0) for b in bs]) if bs else 0.0

    def nanmean(self, xs):
        xs = list(xs)
        n = sum(1 for x in xs if not self.decide(self.isnan(x)))     # decided case by case
        keep = [x for x in xs if not self.decide(self.isnan(x))]
        return self.mean(keep) if n else float('nan')

    def maxof(self, xs):
        r = None
        for x in xs: r = x if r is None else self.ite(x > r, x, r)
        return r

    def minof(self, xs):
        r = None
        for x in xs: r = x if r is None else self.ite(x < r, x, r)
        return r

    def allof(self, bs):
        r = True
        for b in bs: r = self.and_(r, b)
        return r

    def anyof(self, bs):
        r = False
        for b in bs: r = self.or_(r, b)
        return r

    def implies(self, a, b): return self.or_(self.not_(a), b)
    def iff(self, a, b): return self.or_(self.and_(a, b), self.and_(self.not_(a), self.not_(b)))

    def cells(self, a): return list(A.obj(a).ravel()) if isinstance(a, (np.ndarray, list, tuple)) or not hasattr(a, '__len__') else list(a)

    def arr(self, shape, f):
        """Array of the given shape with cell k = f(*k)."""
        flat = [f(*k) for k in np.ndindex(*shape)]
        return self.lay(self.array(flat, shape))

    def slices(self, a, axes):
        """(kept index, list of cells) for every kept position of an array, pooling `axes` (None: all)."""
        nd = a.ndim
        ax = sorted(range(nd) if axes is None else {x % nd for x in ((axes,) if isinstance(axes, int) else axes)})
        keep = [i for i in range(nd) if i not in ax]
        for kk in np.ndindex(*[a.shape[i] for i in keep]):
            cs = []
            for pp in np.ndindex(*[a.shape[i] for i in ax]):
                idx = [0] * nd
                for i, v in zip(keep, kk): idx[i] = v
                for i, v in zip(ax, pp): idx[i] = v
                cs.append(a[tuple(idx)])
            yield kk, cs

    def kept_shape(self, a, axes):
        nd = a.ndim
        ax = set(range(nd)) if axes is None else {x % nd for x in ((axes,) if isinstance(axes, int) else axes)}
        return tuple(a.shape[i] for i in range(nd) if i not in ax)

    def pooled(self, a, axes, f):
        """Array over the kept axes (original order) of f(list of pooled cells)."""
        vals = [f(cs) for _, cs in self.slices(a, axes)]
        return self.array(vals, self.kept_shape(a, axes))

    def at(self, r, kk):
        """Value of a result at a kept position; results over no kept axes may be plain scalars."""
        if kk == (): return self.scalar(r)
        return r[kk]

    def div(self, a, b):
        if self.symbolic: return C.div(a, b)
        with np.errstate(all='ignore'): return np.float64(a) / np.float64(b)

    def fail(self, label, detail=''): self.prove(False, label)

    def dies(self, f, limit):
        """Run f() in a process that may die at any of its first `limit` file operations; True if it died."""
        env.FILES['ctl'] = self.crash_ctl(limit)
        try: f()
        except env.Crash: return True
        finally: env.FILES['ctl'] = None
        return False

    def refuses(self, f, label, exc=Exception):
        """f() must raise an ordinary exception."""
        try: f()
        except exc: return self.prove(True, label)
        self.prove(False, label)


LAYOUTS = ('fortran', 'strided', 'reversed')


def laid_out(a, how):
    """The same array in another memory layout."""
    if how == 'fortran': return a.copy(order='F')
    if how == 'reversed':
        sl = (slice(None, None, -1),) * a.ndim
        return a[sl].copy()[sl]
    if a.ndim == 0: return a
    b = np.repeat(a.view(np.ndarray), 2, axis=-1)
    if isinstance(a, A.SymArray):
        b = b.view(A.SymArray)
        b._dt = a._dt
    return b[..., ::2]


def run_module(mod, x, params):
    p = dict(params)
    x.variant = p.pop('_variant', None)
    return mod.run(x, **p)


def all_configs(mod, tier):
    """The configurations of a property, and variants of some of them: integer inputs and other memory layouts."""
    from props import variants
    out = mod.configs(tier)
    given = tuple(v for v in os.environ.get('SYMX_VARIANTS', '').split(',') if v)
    more = []
    for c in out:
        for v in given or variants.variants(mod.__name__.split('.')[-1], c['name'], tier):
            more.append(dict(c, name='%s+%s' % (c['name'], v), params=dict(c['params'], _variant=v)))
    return out + more


class SymX(Base):
    symbolic = True
    C = C

    def __init__(self, eng, scratch):
        super().__init__(scratch)
        self.e = eng
        self.np = npx.np_proxy
        self.pk = loader.load('PyAnEn')

    def mod(self, name):
        try: return loader.load('PyAnEn.' + name)
        except ModuleNotFoundError: raise Missing(name)

    # -- inputs
    def reals(self, name, shape, lo=None, hi=None, nan=False, pos=False, ints=False):
        e = self.e
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        ints = (ints or self.variant in ('int', 'intdt')) and not nan and not pos
        r = A.new(shape, A.I64 if ints else A.F64)
        b = r.view(np.ndarray)
        cells = []
        for k in np.ndindex(*shape):
            t = e.fresh(name)
            if ints and self.variant != 'intdt': e.add(t == z3.ToReal(z3.Int('%s_int' % t)))
            miss = z3.Bool('%s_nan!%s' % (name, '_'.join(map(str, k)))) if nan else False
            c = C.SV(t, miss, ints)
            if lo is not None: e.add(t >= C.rv(lo))
            if hi is not None: e.add(t <= C.rv(hi))
            if pos: e.add(t > 0)
            b[k] = c
            cells.append(c)
        e.inputs[name] = (shape, cells)
        return laid_out(r, self.variant) if self.variant in LAYOUTS and len(shape) else r

    def real(self, name, lo=None, hi=None, nan=False, pos=False):
        v = self.variant
        self.variant = None
        try: return self.reals(name, (1,), lo, hi, nan, pos)[0]
        finally: self.variant = v

    def integer(self, name, lo, hi):
        """Symbolic integer (kept symbolic)."""
        e = self.e
        t = e.fresh(name)
        k = z3.Int(str(t) + '_int')
        e.add(z3.And(t == z3.ToReal(k), k >= lo, k <= hi))
        c = C.SV(t, False, True)
        e.inputs[name] = ((), [c])
        return c

    def bools(self, name, shape):
        e = self.e
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        r = A.new(shape, A.BOOL)
        b = r.view(np.ndarray)
        cells = []
        for k in np.ndindex(*shape):
            c = C.SB(z3.Bool('%s!%s' % (name, '_'.join(map(str, k)))))
            b[k] = c
            cells.append(c)
        e.inputs[name] = (shape, cells)
        return r

    def choose(self, n, name='pick'): return self.e.choose(n, name) if n > 1 else 0
    def array(self, vals, shape=None, dtype=None):
        a = A.sa(list(vals) if not isinstance(vals, np.ndarray) else vals, dtype)
        return a.reshape(shape) if shape is not None else a
    def copy(self, a): return a.copy() if isinstance(a, np.ndarray) else a
    def scalar(self, r):
        if isinstance(r, np.ndarray):
            if r.size != 1: return r
            return A.obj(r).ravel()[0]
        return r
    def rewind(self): rnd.rewind()
    def drawn(self): return list(rnd.LOG)
    def names_matter(self): self.e.names_matter = True
    def reimport(self):
        loader.reset()
        self.pk = loader.load('PyAnEn')

    # -- logic
    def assume(self, c): self.e.assume(C.bz(c) if not isinstance(c, (bool, np.bool_)) else z3.BoolVal(bool(c)))
    def decide(self, c):
        if isinstance(c, (bool, np.bool_)): return bool(c)
        return self.e.fork(C.bz(c))
    def apart(self, a, b, eps=1e-6): pass
    def prove(self, c, label):
        self.e.discharge(c if not isinstance(c, (bool, np.bool_)) else z3.BoolVal(bool(c)), label)
    def note(self, v): pass

    def eq(self, a, b, label, tol=None):
        ao, bo = A.obj(a), A.obj(b)
        if ao.shape != bo.shape:
            self.e.discharge(z3.BoolVal(False), '%s: shape %s instead of %s' % (label, ao.shape, bo.shape))
            return
        self.obs.append((label, a))
        for k in np.ndindex(*ao.shape):
            x, y = ao[k], bo[k]
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray): self.eq(x, y, label, tol); continue
            self.e.discharge_eq(x, y, label)

    def same_arrays(self, a, b, label): self.eq(a, b, label)

    def exists_draw(self, run, pred, label):
        """Some outcome of the random draws makes pred(run()) true; decided over all paths of the configuration together
        (which must not have symbolic inputs besides the draws)."""
        r = run()
        self.e.path_obligations += 1
        if self.e.exists.get(label) is True: return
        self.e.exists.setdefault(label, False)
        s = self.e.satisfiable(C.bz(pred(r)))
        if s: self.e.exists[label] = True
        elif s is None: self.e.exists[label] = None

    # -- cell functions
    ite = staticmethod(lambda c, a, b: C.ite(c, a, b))
    and_ = staticmethod(C.and_)
    or_ = staticmethod(C.or_)
    not_ = staticmethod(C.not_)
    isnan = staticmethod(C.isnan)
    abs = staticmethod(C.fabs)
    sqrt = staticmethod(C.sqrt)
    exp = staticmethod(C.exp)
    log = staticmethod(C.log)
    phi = staticmethod(env.phi)
    lgam = staticmethod(env.lgam)
    def ginc(self, a, x):
        if C.is_conc(x): return 0.0 if x <= 0 else env.ginc(a, x)
        if self.e.known_nonneg(x.t): return env.ginc(a, x)
        return C.ite(C.le(x, 0), 0.0, env.ginc(a, C.ite(C.le(x, 0), 1.0, x)))
    ginc_pos = staticmethod(env.ginc)      # argument known not to be negative
    gincinv = staticmethod(env.gincinv)
    phiinv = staticmethod(env.phiinv)
    @staticmethod
    def tcdf(x, df): return C.ufc('tcdf', x, df)
    def same_memory(self, a, b): return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b)
    def finite(self, c): return False if C._isinf(c) else C.not_(C.isnan(c))

    # -- files of chunked data sets
    def nc_files(self, files):
        from . import fakexr
        for p in files:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').close()
        env.FakeXr.impl = fakexr.Impl(files)
    def digits(self, v, width=0): return str(v)
    def seconds(self, da):
        """Seconds since the epoch of an array of dates; None if it does not hold dates."""
        return da.values if da._v.dates else None

    # -- schedules and faults
    def crash_ctl(self, limit): return env.FileCtl(lambda n: self.e.choose(n, 'crash'), limit)


class ConcX(Base):
    symbolic = False
    C = C

    def __init__(self, pk, model, scratch, jitter=None, rng=None, tol=1e-5):
        super().__init__(scratch)
        self.np = np
        self.pk = pk
        self.model = model
        self.jit = jitter
        self.rng = rng
        self.tol = tol
        self.reached = 0
        ch = {}
        for n, j in (model or {}).get('choices', []): ch.setdefault(n, []).append(j)
        self.ch = ch
        self.chpos = {}

    def mod(self, name):
        import importlib
        try: return importlib.import_module('PyAnEn.' + name)
        except ModuleNotFoundError: raise Missing(name)

    # -- inputs
    def _rand(self, lo, hi, pos, nan):
        g = self.rng
        l = -20.0 if lo is None else float(lo)
        h = 20.0 if hi is None else float(hi)
        if pos: l = max(l, 1e-3)
        h = max(min(h, l + 40.0) if g.random() < .8 else min(h, 1e3), l)
        if nan and g.random() < 0.2: return float('nan')
        q = g.random()
        if q < 0.35: v = float(g.randint(math.ceil(l), math.floor(h))) if math.ceil(l) <= math.floor(h) else g.uniform(l, h)
        elif q < 0.5: v = round(g.uniform(l, h) * 2) / 2
        elif q < 0.6: v = 0.0
        else: v = g.uniform(l, h)
        v = min(max(v, l), h)
        return v

    def reals(self, name, shape, lo=None, hi=None, nan=False, pos=False, ints=False):
        ints = (ints or self.variant in ('int', 'intdt')) and not nan and not pos
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        m = (self.model or {}).get('inputs', {}).get(name)
        if m is not None and len(m['cells']) == n:
            vals = [float('nan') if c == 'nan' else float(c) for c in m['cells']]
        elif self.rng is not None: vals = [self._rand(lo, hi, pos, nan) for _ in range(n)]
        else: vals = [float(i + 1) for i in range(n)]
        if self.jit and not (m is None and self.rng is not None):
            g, s = self.jit
            vals = [v if math.isnan(v) or g.random() < 0.3 else v + s * g.uniform(-1, 1) * (1 + abs(v)) for v in vals]
            vals = [v if math.isnan(v) else min(max(v, lo if lo is not None else v), hi if hi is not None else v) for v in vals]
        if ints: vals = [round(v) for v in vals]
        a = np.array(vals, dtype=int if ints else float).reshape(shape)
        with np.errstate(invalid='ignore'):
            if lo is not None and np.any(a < lo) or hi is not None and np.any(a > hi) or pos and np.any(a <= 0): raise Skip
        return laid_out(a, self.variant) if self.variant in LAYOUTS and len(shape) else a

    def real(self, name, lo=None, hi=None, nan=False, pos=False):
        v = self.variant
        self.variant = None
        try: return float(self.reals(name, (1,), lo, hi, nan, pos)[0])
        finally: self.variant = v

    def integer(self, name, lo, hi):
        m = (self.model or {}).get('inputs', {}).get(name)
        v = int(m['cells'][0]) if m else self.rng.randint(lo, hi) if self.rng else lo
        if v < lo or v > hi: raise Skip
        return v

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        m = (self.model or {}).get('inputs', {}).get(name)
        vals = [bool(c) for c in m['cells']] if m and len(m['cells']) == n else [self.rng.random() < .5 if self.rng else bool(i % 2) for i in range(n)]
        return np.array(vals, dtype=bool).reshape(shape)

    def choose(self, n, name='pick'):
        if n <= 1: return 0
        k = self.chpos.get(name, 0)
        self.chpos[name] = k + 1
        s = self.ch.get(name, [])
        if k < len(s): return min(int(s[k]), n - 1)
        return self.rng.randrange(n) if self.rng else 0

    def array(self, vals, shape=None, dtype=None):
        a = np.array(vals, dtype=dtype)
        return a.reshape(shape) if shape is not None else a
    def copy(self, a): return np.array(a) if isinstance(a, np.ndarray) else a
    def scalar(self, r):
        if isinstance(r, np.ndarray):
            if r.size != 1: return r
            return r.ravel()[0]
        return r
    def rewind(self): rnd.rewind()
    def drawn(self): return list(rnd.LOG)
    def names_matter(self): pass
    def reimport(self):
        import importlib
        importlib.reload(sys.modules['PyAnEn'])

    # -- logic
    def assume(self, c):
        if not bool(c): raise Skip
    def decide(self, c): return bool(c)
    def apart(self, a, b, eps=1e-6):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        with np.errstate(invalid='ignore'):
            if np.any(np.abs(a - b) <= eps * (1 + np.abs(b))): raise Skip
    def prove(self, c, label):
        self.reached += 1
        if not bool(c): raise Violated(label)
    def note(self, v): pass

    def eq(self, a, b, label, tol=None):
        self.reached += 1
        tol = tol or self.tol
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: raise Violated('%s: shape %s instead of %s' % (label, a.shape, b.shape))
        self.obs.append((label, a))
        if a.dtype == object or b.dtype == object:
            for k in np.ndindex(*a.shape):
                if isinstance(a[k], np.ndarray) or isinstance(b[k], np.ndarray): self.eq(a[k], b[k], label, tol)
                elif not _close(float(a[k]), float(b[k]), tol): raise Violated(label, '%r at %s instead of %r' % (a[k], k, b[k]))
            return
        a, b = a.astype(float), b.astype(float)
        for k in np.ndindex(*a.shape):
            if not _close(a[k], b[k], tol): raise Violated(label, '%r at %s instead of %r' % (float(a[k]), k, float(b[k])))

    same_arrays = eq

    def exists_draw(self, run, pred, label):
        self.reached += 1
        for k in range(200):
            C.E.free(k)
            r = run()
            if bool(pred(r)): return
        raise Violated(label)

    # -- cell functions
    ite = staticmethod(lambda c, a, b: a if bool(c) else b)
    and_ = staticmethod(lambda a, b: bool(a) and bool(b))
    or_ = staticmethod(lambda a, b: bool(a) or bool(b))
    not_ = staticmethod(lambda a: not bool(a))
    isnan = staticmethod(lambda a: bool(np.isnan(a)))
    abs = staticmethod(abs)
    sqrt = staticmethod(lambda a: float(np.sqrt(a)))
    exp = staticmethod(lambda a: float(np.exp(a)))
    log = staticmethod(lambda a: float(np.log(a)))
    @staticmethod
    def phi(z):
        from scipy.special import ndtr
        return float(ndtr(z))
    @staticmethod
    def lgam(x):
        from scipy.special import gammaln
        return float(gammaln(x))
    @staticmethod
    def ginc(a, x):
        from scipy.special import gammainc
        return float(gammainc(a, x)) if x > 0 else 0.0
    ginc_pos = ginc
    @staticmethod
    def gincinv(a, q):
        from scipy.special import gammaincinv
        return float(gammaincinv(a, q))
    @staticmethod
    def phiinv(q):
        from scipy.special import ndtri
        return float(ndtri(q))
    @staticmethod
    def tcdf(x, df):
        from scipy.stats import t
        return float(t.cdf(x, df))
    def same_memory(self, a, b): return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b)
    def finite(self, c): return bool(np.isfinite(c))

    def nc_files(self, files):
        """Real files; xarray opens them without dask."""
        import netCDF4, xarray.backends.api as api
        if not getattr(api.open_dataset, '_symx', False):
            real = api.open_dataset
            def nochunks(*a, **k):
                k.pop('chunks', None)
                return real(*a, **k)
            nochunks._symx = True
            api.open_dataset = nochunks
        for p, groups in files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with netCDF4.Dataset(p, 'w') as nc:
                dims = {}
                for vs in groups.values():
                    for v in vs.values():
                        for d, s in zip((v[0],) if isinstance(v[0], str) else v[0], np.shape(v[1])): dims.setdefault(d, s)
                for d, s in dims.items(): nc.createDimension(d, s)
                for g, vs in groups.items():
                    h = nc if g is None else nc.createGroup(g)
                    for n, v in vs.items():
                        a = np.asarray(v[1])
                        x = h.createVariable(n, 'S1' if a.dtype.kind == 'S' else 'f8', (v[0],) if isinstance(v[0], str) else tuple(v[0]))
                        x[:] = a
                        for k, t in (v[2] if len(v) > 2 else {}).items(): setattr(x, k, t)
    def digits(self, v, width=0): return str(v).zfill(width)
    def seconds(self, da):
        v = da.values
        if v.dtype.kind != 'M': return None
        return (v - np.datetime64('1970-01-01T00:00:00')) / np.timedelta64(1, 's')
    def crash_ctl(self, limit): return env.FileCtl(lambda n: self.choose(n, 'crash'), limit)


def _close(x, y, tol):
    if math.isnan(x) or math.isnan(y): return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y): return x == y
    return abs(x - y) <= tol * (1 + abs(y))
