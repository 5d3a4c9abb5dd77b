"""np.random with symbolic draws.  Every draw is an arbitrary value of its range; X.rewind() replays the same draws."""
import types
import numpy as np
import z3
from . import core as C
from . import arr as A
from .core import SV, Gap, is_sym


LOG = []            # integers drawn since the last rewind, as (range, value)


def draw(kind, n=None):
    """Next primitive draw.  kind 'idx': integer in 0..n-1; 'unit': real in [0,1); 'norm': any real; 'pos': real > 0."""
    E = C.E
    k = E.drawpos
    E.drawpos += 1
    key = (k, kind, n)
    v = E.drawmap.get(key)
    if v is None:
        E.check_time()
        if kind == 'idx': v = E.index_var(n)
        else:
            v = SV(E.fresh('draw_' + kind))
            if kind == 'unit': E.add(z3.And(v.t >= 0, v.t < 1))
            elif kind == 'pos': E.add(v.t > 0)
        E.drawmap[key] = v
        E.draws.append([[k, kind, n], [v]])
    if kind == 'idx': LOG.append((n, v))
    return v


def _size(size):
    if size is None: return None
    if isinstance(size, A.SymArray): size = A.native(size).tolist()
    if isinstance(size, (int, np.integer)): return (int(size),)
    if isinstance(size, SV): return (C.E.concretize_int(size),)
    return tuple(int(s) for s in size)


def _fill(size, f, dt):
    s = _size(size)
    if s is None: return A.out_cell(f(), dt)
    r = A.new(s, dt)
    b = r.view(np.ndarray).reshape(-1)
    for i in range(b.size): b[i] = A.py(f())
    return r


def seed(s=None): rewind()


def rewind():
    C.E.drawpos = 0
    LOG.clear()


def choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
    if p is not None: raise Gap('weighted choice')
    pop = None
    if isinstance(a, (int, np.integer)): n = int(a)
    elif isinstance(a, SV): n = C.E.concretize_int(a)
    else:
        pop = A.sa(a)
        if pop.ndim != 1 and axis == 0 and pop.ndim == 0: n = int(pop.item()); pop = None
        elif pop.ndim != 1: raise ValueError('a must be 1-dimensional')
        else: n = len(pop)
    if n == 0 and (size is None or np.prod(_size(size)) > 0): raise ValueError('a cannot be empty unless no samples are taken')
    if not replace:
        m = int(np.prod(_size(size))) if size is not None else 1
        if m > n: raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        left = list(range(n)); out = []
        for _ in range(m):
            j = C.E.concretize_int(draw('idx', len(left))) if len(left) > 1 else 0
            out.append(left.pop(j))
        idx = A.sa(out, A.I64).reshape(_size(size)) if size is not None else out[0]
    else:
        idx = _fill(size, lambda: draw('idx', n) if n > 1 else 0, A.I64)
    return idx if pop is None else pop[idx]


def randint(low, high=None, size=None, dtype=int, endpoint=False):
    if high is None: low, high = 0, low
    lo, hi = A.obj(low), A.obj(high)
    def one(l, h):
        w = C.sub(h, l)
        if endpoint: w = C.add(w, 1)
        if is_sym(w):
            w = C.E.concretize_int(w)
        if w <= 0: raise ValueError('low >= high')
        return C.add(l, draw('idx', int(w))) if w > 1 else l
    if lo.ndim == 0 and hi.ndim == 0:
        l, h = lo[()], hi[()]
        return _fill(size, lambda: one(l, h), A.I64)
    s = _size(size) or np.broadcast_shapes(lo.shape, hi.shape)
    lb, hb = np.broadcast_to(lo, s), np.broadcast_to(hi, s)
    r = A.new(s, A.I64)
    for k in np.ndindex(s): r.view(np.ndarray)[k] = A.py(one(lb[k], hb[k]))
    return r


def _par(kind, f, *params, size=None):
    ps = [A.obj(p) for p in params]
    bs = np.broadcast_shapes(*[p.shape for p in ps]) if ps else ()
    s = _size(size)
    if s is None:
        if bs == (): return f(draw(kind), *[p[()] for p in ps])
        s = bs
    elif np.broadcast_shapes(s, bs) != s: raise ValueError('shape mismatch: objects cannot be broadcast')
    ps = [np.broadcast_to(p, s) for p in ps]
    r = A.new(s, A.F64)
    for k in np.ndindex(s): r.view(np.ndarray)[k] = A.py(f(draw(kind), *[p[k] for p in ps]))
    return r


def uniform(low=0.0, high=1.0, size=None): return _par('unit', lambda u, l, h: C.add(l, C.mul(u, C.sub(h, l))), low, high, size=size)
def random(size=None): return _par('unit', lambda u: C.mul(u, 1.0), size=size)
def rand(*s): return random(s or None)
def randn(*s): return standard_normal(s or None)
def normal(loc=0.0, scale=1.0, size=None): return _par('norm', lambda z, l, s: C.add(l, C.mul(z, s)), loc, scale, size=size)
def standard_normal(size=None): return _par('norm', lambda z: z, size=size)


def permutation(x):
    if isinstance(x, (int, np.integer)):
        return choice(int(x), size=int(x), replace=False)
    a = A.sa(x)
    return a[choice(len(a), size=len(a), replace=False)]


def shuffle(x):
    p = permutation(len(x))
    x[...] = x[p].copy()


class Generator:
    """default_rng(...) and RandomState(...)."""
    def __init__(self, *a): pass
    choice = staticmethod(choice)
    uniform = staticmethod(uniform)
    random = staticmethod(random)
    random_sample = staticmethod(random)
    rand = staticmethod(rand)
    randn = staticmethod(randn)
    normal = staticmethod(normal)
    standard_normal = staticmethod(standard_normal)
    permutation = staticmethod(permutation)
    shuffle = staticmethod(shuffle)
    randint = staticmethod(randint)
    seed = staticmethod(seed)
    @staticmethod
    def integers(low, high=None, size=None, dtype=None, endpoint=False): return randint(low, high, size, endpoint=endpoint)


class _Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        if hasattr(np.random, name): raise Gap('np.random.' + name)
        raise AttributeError(name)


MODULE = _Mod('numpy.random')
for _n, _f in dict(seed=seed, choice=choice, randint=randint, uniform=uniform, random=random, random_sample=random, ranf=random,
                   sample=random, rand=rand, randn=randn, normal=normal, standard_normal=standard_normal, permutation=permutation,
                   shuffle=shuffle, default_rng=Generator, RandomState=Generator, Generator=Generator,
                   get_state=lambda *a, **k: C.E.drawpos, set_state=lambda s: setattr(C.E, 'drawpos', s)).items():
    setattr(MODULE, _n, _f)
