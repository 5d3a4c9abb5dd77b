"""Loads /repo/PyAnEn from source into a world whose numpy, scipy, ... are the symbolic ones."""
import builtins, importlib, os, sys, types
import numpy as np
from . import core as C
from . import npx, rnd, env

REPO = os.environ.get('SYMX_REPO', '/repo')
PKG = 'PyAnEn'
_mods = {}
_code = {}


def reset():
    """Forget the loaded package, so that the next load starts from a fresh import (module state included)."""
    for n in list(_mods): sys.modules.pop(n, None)
    _mods.clear()


def sources():
    return sorted(_code)


def table():
    return {'numpy': npx.np_proxy, 'numpy.random': rnd.MODULE, 'scipy': env.SCIPY_MOD, 'scipy.stats': env.STATS_MOD,
            'scipy.special': env.SPECIAL_MOD, 'pandas': env.PANDAS_MOD, 'sklearn': env.SKLEARN_MOD,
            'sklearn.metrics': env.METRICS_MOD, 'sklearn.neighbors': env.NEIGH_MOD, 'ray': env.RAY_MOD, 'tqdm': env.TQDM_MOD,
            'tqdm.auto': env.TQDM_AUTO, 'tqdm.contrib': env.TQDM_CONTRIB, 'tqdm.contrib.concurrent': env.TQDM_CONC,
            'properscoring': env.PS_MOD, 'math': env.MATH_MOD, 'xarray': env.XR_MOD, 'netCDF4': env.NC_MOD}


def builtins_for(local=None):
    tab = table()
    local = local or {}

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals.get('__name__', '').rpartition('.')[0]
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            full = base + ('.' + name if name else '')
            if full in local and local[full] is not None: return local[full]
            if full == PKG or full.startswith(PKG + '.'):
                if name: return load(full) if fromlist else load(full.split('.')[0])
                for f in fromlist or ():
                    if not hasattr(_mods[PKG], f) and os.path.exists(os.path.join(REPO, PKG, f + '.py')): load(PKG + '.' + f)
                return _mods[PKG]
            if full.startswith('symx_'): raise ImportError(full)
            m = importlib.import_module(full)
            if not fromlist: return sys.modules[full.split('.')[0]]
            return m
        if name == PKG or name.startswith(PKG + '.'):
            m = load(name)
            return m if fromlist else load(PKG)
        if name in tab:
            if fromlist or '.' not in name: return tab[name]
            return tab[name.split('.')[0]]
        top = name.split('.')[0]
        if top in ('sklearn', 'ray', 'tqdm', 'xarray', 'netCDF4', 'pandas', 'tensorflow', 'dask', 'joblib'):
            raise C.Gap('import ' + name)
        if top == 'scipy' and not name.startswith('scipy._'):
            m = env._ConcMod(importlib.import_module(name))
            return m if fromlist else env.SCIPY_MOD
        return builtins.__import__(name, globals, locals, fromlist, 0)

    b = dict(builtins.__dict__)
    b.update(__import__=imp, float=env.Float, int=env.Int, bool=env.Bool, isinstance=env.isinstance_, open=env.guarded_open,
             print=lambda *a, **k: None, sorted=env.sorted_)
    return b


def load(full):
    if full in _mods: return _mods[full]
    name = full[len(PKG) + 1:] if full != PKG else '__init__'
    path = os.path.join(REPO, PKG, name.replace('.', '/') + '.py')
    if not os.path.exists(path): raise ModuleNotFoundError("No module named '%s'" % full, name=full)
    if full != PKG and PKG not in _mods: load(PKG)
    if full in _mods: return _mods[full]
    m = types.ModuleType(full)
    m.__file__ = path
    m.__package__ = PKG
    if full == PKG: m.__path__ = [os.path.join(REPO, PKG)]
    _mods[full] = m
    sys.modules[full] = m
    m.__dict__['__builtins__'] = builtins_for()
    if path not in _code:
        with open(path) as f: _code[path] = compile(f.read(), path, 'exec')
    try:
        exec(_code[path], m.__dict__)
    except BaseException:
        _mods.pop(full, None); sys.modules.pop(full, None)
        raise
    if full != PKG: setattr(_mods[PKG], name, m)
    return m
