"""C23: integration leaves settings and files as they were, even when it fails."""
import os
from .common import *
BOUNDS = 'hurdle forecasts of 1-2 cells with any probability of precipitation, grids of 2-3 points, a failure (exception, or interruption by the user) at any access to the forecast parameters or none; 1-3 workers, every completion order; any combination of the listed former settings'
OUTSIDE = 'failures outside CDF evaluations (a full disk while the memory map is made), death of the process'
COUNT = {'left': None, 'kind': 0}


class Fault(Exception):
    pass


class Params(dict):
    """Forecast parameters whose evaluation fails at the chosen access."""
    def __getitem__(self, k):
        if k == 'pop' and COUNT['left'] is not None:
            COUNT['left'] -= 1
            if COUNT['left'] < 0:
                COUNT['left'] = None
                if COUNT['kind']: raise KeyboardInterrupt
                raise Fault('evaluation failed')
        return dict.__getitem__(self, k)


def configs(tier):
    out = []
    for what in ('mean', 'variance', 'crps'):
        for mode in ('one', 'mem', 'par', 'parmem', 'envmem', 'cwdmem'):
            for kind in (0, 1):
                if kind and mode not in ('one', 'mem'): continue
                nb = 2 if mode in ('par', 'parmem', 'envmem', 'cwdmem') and tier == 'quick' else 3
                out.append({'name': '%s-%s-%s' % (what, mode, 'stop' if kind else 'error'), 'params': {'what': what, 'mode': mode, 'kind': kind, 'nb': nb}})
    for meth in ('crps', 'f_determ', 'variance'):
        for mem in (False, True): out.append({'name': 'verifier-%s-%s' % (meth, mem), 'params': {'what': meth, 'mode': 'verifier%d' % mem, 'kind': 0, 'nb': 3}})
    return out


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds: out[os.path.join(d, n)] = None
        for n in fs:
            with open(os.path.join(d, n), 'rb') as f: out[os.path.join(d, n)] = f.read()
    return out


def meaning(v):
    """What a setting says: truth value, number or text."""
    if v.lower() in ('y', 'yes', 't', 'true', 'on', '1'): return 1.0
    if v.lower() in ('n', 'no', 'f', 'false', 'off', '0'): return 0.0
    try: return float(v)
    except ValueError: return v


def settings(): return {k: meaning(v) for k, v in os.environ.items() if k.startswith('pyanen_')}


def run(X, what, mode, kind, nb):
    n = 2 if mode in ('one', 'mem') else 1
    o = X.array([1.0, 3.0][:n])
    pop = X.reals('pop', (n,), 0, 1)
    f = Params(pop=pop, mu=X.array([2.0, 1.5][:n]), sigma=X.array([1.0, 2.0][:n]))
    dis = ('False', 'True', '0')[X.choose(3, 'disable')]
    work = (1, 3, 2)[X.choose(3 if mode.startswith('env') else 2, 'workers')] if not mode.startswith('verifier') else 1
    X.setenv(tqdm_disable=dis, tqdm_workers=work)
    for d in ('a', 'b', 'c'): os.makedirs(os.path.join(X.tmp, d))
    with open(os.path.join(X.tmp, 'a', 'other.dat'), 'w') as g: g.write('kept')
    kw, ext = {}, {}
    if mode == 'envmem': X.setenv(integrate_with_less_memory=True, integrate_wdir=os.path.join(X.tmp, 'a'))
    elif mode == 'cwdmem': kw = {'less_memory': True}; os.chdir(os.path.join(X.tmp, 'a'))
    elif mode in ('mem', 'parmem'): kw = {'less_memory': True, 'memmap_dir': os.path.join(X.tmp, 'a')}
    if mode in ('par', 'parmem'): kw['workers'] = 2
    if mode in ('one', 'mem'): kw['workers'] = 1
    cls = X.cls('VerifyProbGammaHurdle')
    if mode.startswith('verifier'):
        if mode[-1] == '1': X.setenv(integrate_with_less_memory=True, integrate_wdir=os.path.join(X.tmp, 'b'))
        mk = lambda: getattr(cls(f, o, n_approx_bins=nb, integration_range=(0.0, 4.0)), what)
    else:
        v = cls(f, o)
        mk = lambda: getattr(X.fn('utils_approximation', 'Integration')(v, integration_range=(0.0, 4.0), nbins=nb, **kw), what)
    cwd = os.getcwd()
    before, files = settings(), tree(X.tmp)
    call = mk()
    COUNT['kind'] = kind
    COUNT['left'] = X.choose(nb + 1, 'fault')
    if COUNT['left'] == nb: COUNT['left'] = 10 ** 6
    failed = False
    try: first = call()
    except Fault: failed = True
    except KeyboardInterrupt: failed = True
    injected = COUNT['left'] is None
    COUNT['left'] = None
    X.prove(failed == injected, 'a failing evaluation fails the integration')
    after = settings()
    for k in before: X.prove(k in after and after[k] == before[k], 'setting %s has its former meaning' % k)
    X.prove(os.getcwd() == cwd, 'same directory')
    X.prove(tree(X.tmp) == files, 'files as they were')
    # and the next integration works as usual
    second = mk()()
    X.prove(tree(X.tmp) == files, 'files as they were after another one')
    X.setenv(tqdm_workers=1, integrate_with_less_memory=False)
    if mode.startswith('verifier'): plain = mk()()
    else: plain = getattr(X.fn('utils_approximation', 'Integration')(v, integration_range=(0.0, 4.0), nbins=nb, workers=1, less_memory=False), what)()
    X.eq(second, plain, 'a later integration gives its usual result')
    if not failed: X.eq(first, plain, 'the integration gives its usual result')
