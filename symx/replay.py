"""Runs harnesses on the real package.  Started as its own process: imports the package, reads jobs (JSON lines) from
stdin, runs every job in a forked child, writes one JSON result line per job."""
import contextlib, importlib, io, json, os, pickle, random, shutil, sys, tempfile, time, traceback, types, warnings

REPO = os.environ.get('SYMX_REPO', '/repo')


class ScriptEngine:
    """Supplies scripted random draws to symx.rnd."""
    def __init__(self, model, rng):
        self.drawpos = 0
        self.script = {(k[0], k[1], k[2]): v[0] for k, v in (model or {}).get('draws', [])}
        self.rng = rng or random.Random(1)
        self.cache = {}
        self.drawmap = self
        self.draws = []
        self.tokens = []

    def get(self, key):
        if key in self.script:
            v = self.script[key]
            if key[1] == 'idx': return min(max(int(round(v)), 0), key[2] - 1)
            if key[1] == 'unit': return min(max(float(v), 0.0), 0.9999999)
            return float(v)
        if key not in self.cache:
            g = self.rng
            self.cache[key] = (g.randrange(key[2]) if key[1] == 'idx' else g.random() if key[1] == 'unit' else
                               g.gauss(0, 1) if key[1] == 'norm' else g.random() + 0.1)
        return self.cache[key]

    def free(self, k):
        self.drawpos, self.script, self.cache, self.rng = 0, {}, {}, random.Random(1000 + k)

    def untoken(self, s): return None
    def check_time(self): pass
    def choose(self, n, name): return 0


def patch(conc_choose):
    import numpy as np
    import symx.core as C, symx.arr as A, symx.rnd as R, symx.env as env
    from symx import npx

    import scipy.stats, scipy.special, sklearn.metrics, sklearn.neighbors, pandas, properscoring, tqdm.auto
    def nat(f):
        def g(*a, **k):
            r = f(*a, **k)
            return A.native(r) if isinstance(r, A.SymArray) else r
        return g
    for n in ('seed', 'choice', 'randint', 'uniform', 'random', 'random_sample', 'rand', 'randn', 'normal', 'standard_normal',
              'permutation', 'shuffle', 'ranf', 'sample'):
        setattr(np.random, n, nat(getattr(R.MODULE, n)))

    class Gen:
        def __init__(self, *a): pass
    for n in ('choice', 'uniform', 'random', 'random_sample', 'rand', 'randn', 'normal', 'standard_normal', 'permutation', 'shuffle',
              'randint', 'integers', 'seed'):
        setattr(Gen, n, staticmethod(nat(getattr(R.Generator, n))))
    np.random.default_rng = lambda *a: Gen()
    np.random.RandomState = Gen
    from scipy import stats
    import scipy.stats._continuous_distns as cd
    from scipy.special import gammaincinv, ndtr, ndtri
    sz = lambda size: tuple(size) if hasattr(size, '__len__') else size
    cd.norm_gen._rvs = lambda self, size=None, random_state=None: nat(R.standard_normal)(sz(size))
    cd.uniform_gen._rvs = lambda self, size=None, random_state=None: nat(R.random)(sz(size))
    cd.gamma_gen._rvs = lambda self, a, size=None, random_state=None: nat(env._bcast)(lambda u, aa: env.gincinv(aa, u), a, size=size)

    def tn(u, a, b):
        # mass of the truncated normal, computed in the better conditioned tail
        q = float(-ndtri(ndtr(-a) - u * (ndtr(-a) - ndtr(-b)))) if a > 0 else float(ndtri(ndtr(a) + u * (ndtr(b) - ndtr(a))))
        return min(max(q, float(a)), float(b))
    cd.truncnorm_gen._rvs = lambda self, a, b, size=None, random_state=None: nat(env._bcast)(tn, a, b, size=size)
    # the package may reach real ray and process pools: same stand-ins as in the encoding
    sys.modules['ray'] = env.make_ray(conc_choose)
    import tqdm.contrib.concurrent as tc
    tc.process_map = env.process_map
    tc.thread_map = env.TQDM_CONC.thread_map


CUR = {'x': None}


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    out = os.fdopen(os.dup(1), 'w')
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    err = None
    try:
        patch(lambda n: CUR['x'].choose(n, 'order') if n > 1 else 0)
        import symx.ctx as ctx
        ctx.reset_env()
        import symx.env as env
        # modules that import xarray / netCDF4 get stand-ins when a harness provides them
        import PyAnEn
        for m in ('VerifyEnsemble', 'VerifyDeterm', 'VerifyProb', 'VerifyProbGaussian', 'VerifyProbGamma', 'VerifyProbGammaHurdle',
                  'IO', 'Grid', 'utils_significance', 'utils_approximation'):
            try: importlib.import_module('PyAnEn.' + m)
            except ModuleNotFoundError: pass
        import builtins
        env._REAL_OPEN = builtins.open
        builtins.open = env.guarded_open
        env.install_os_points()
    except BaseException:
        err = traceback.format_exc()
    out.write(json.dumps({'ready': err is None, 'error': err}) + '\n')
    out.flush()
    if err is not None: return
    maxp = int(os.environ.get('SYMX_PROCS', '8'))
    jobs = [json.loads(l) for l in sys.stdin if l.strip()]
    running, results = {}, {}
    q = list(enumerate(jobs))
    scratch = tempfile.mkdtemp(prefix='symx-replay-')
    try:
        while q or running:
            while q and len(running) < maxp:
                i, job = q.pop(0)
                rf = os.path.join(scratch, 'r%d.json' % i)
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        res = run_job(PyAnEn, job, os.path.join(scratch, 'w%d' % i))
                        with env._REAL_OPEN(rf, 'w') as f: json.dump(res, f)
                    except BaseException as ex:
                        try:
                            with env._REAL_OPEN(rf, 'w') as f: json.dump({'status': 'error', 'detail': traceback.format_exc()[-1500:]}, f)
                        except BaseException: pass
                    os._exit(0)
                running[pid] = (i, rf, time.time())
            try: pid, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError: pid = 0
            if pid in running:
                i, rf, t0 = running.pop(pid)
                try:
                    with env._REAL_OPEN(rf) as f: results[i] = json.load(f)
                except Exception: results[i] = {'status': 'error', 'detail': 'child died'}
                r = dict(results[i]); r['job'] = i
                out.write(json.dumps(r) + '\n')
                out.flush()
            else:
                for p, (i, rf, t0) in list(running.items()):
                    if time.time() - t0 > 60:
                        try: os.kill(p, 9)
                        except OSError: pass
                time.sleep(0.003)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_job(pk, job, wdir):
    """One job: a list of attempts (model, jitter or random seed); stops at the first violation."""
    import symx.ctx as ctx, symx.core as C, symx.env as env
    from symx import guard
    import numpy as np
    np.seterr(all='ignore')
    mod = importlib.import_module('props.' + job['prop'])
    t_end = time.time() + job.get('seconds', 20)
    done = skipped = 0
    reached = 0
    obs = None
    for n, at in enumerate(job['attempts']):
        if n and time.time() > t_end: break
        rng = random.Random(at.get('seed', 0)) if at.get('seed') is not None else None
        jit = (random.Random(at['jseed']), at['scale']) if at.get('scale') else None
        C.set_engine(ScriptEngine(at.get('model'), random.Random(at.get('seed') or 7)))
        ctx.reset_env()
        env.FILES['ctl'] = None
        w = os.path.join(wdir, 'a%d' % n)
        os.makedirs(w)
        cwd = os.getcwd()
        os.chdir(w)
        x = ctx.ConcX(pk, at.get('model'), w, jitter=jit, rng=rng)
        CUR['x'] = x
        ray = sys.modules['ray']
        ray._state['on'] = False; ray._state['objs'].clear()
        try:
            guard.on(w)
            try: ctx.run_module(mod, x, job['params'])
            finally: guard.off()
            done += 1
            reached = max(reached, x.reached)
            if obs is None and at.get('model') is not None and not jit:
                obs = [[l, _obs(v)] for l, v in x.obs]
        except ctx.Skip: skipped += 1
        except ctx.Missing as ex: return {'status': 'missing', 'detail': str(ex)}
        except ctx.Violated as v:
            return {'status': 'violation', 'label': v.label, 'detail': v.detail, 'attempt': n}
        except (Exception, env.Crash) as ex:
            tb = traceback.format_exc()
            if 'MemoryError' in tb: return {'status': 'error', 'detail': tb[-1500:]}
            return {'status': 'violation', 'label': 'raised %s: %s' % (type(ex).__name__, str(ex)[:200]), 'detail': tb[-1500:], 'attempt': n}
        finally:
            os.chdir(cwd)
            env.FILES['ctl'] = None
            shutil.rmtree(w, ignore_errors=True)
    return {'status': 'ok', 'done': done, 'skipped': skipped, 'reached': reached, 'obs': obs}


def _obs(v):
    import numpy as np
    v = np.asarray(v)
    if v.dtype == object: return None
    return [None if x != x else float(x) for x in v.astype(float).ravel()[:64]]


if __name__ == '__main__':
    main()
