"""Decides one property: symbolic exploration of its harness configurations, then replay on the real package."""
import importlib, json, multiprocessing as mp, os, random, shutil, subprocess, sys, tempfile, time, traceback
import numpy as np
import z3
from . import core as C, arr as A, npx, env, loader, ctx, guard

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = loader.REPO
PROCS = int(os.environ.get('SYMX_PROCS', '8'))


# ---------------------------------------------------------------- functions of /repo that the encoder executed

SEEN = set()


def _watch():
    m = sys.monitoring
    try: m.use_tool_id(4, 'symx')
    except ValueError: return
    pre = os.path.join(REPO, 'PyAnEn') + os.sep
    def start(code, off):
        if code.co_filename.startswith(pre) and not code.co_name.startswith('<'):
            SEEN.add(os.path.basename(code.co_filename)[:-3] + '.' + code.co_qualname)
        return m.DISABLE
    m.register_callback(4, m.events.PY_START, start)
    m.set_events(4, m.events.PY_START)


# ---------------------------------------------------------------- symbolic phase

def explore(prop, cfg, tier, deadline):
    mod = importlib.import_module('props.' + prop)
    budget = cfg.get('budget', 60 if tier == 'quick' else 600)
    t0 = time.time()
    eng = C.Engine(min(t0 + budget, deadline), timeout_ms=cfg.get('timeout', 15000 if tier == 'quick' else 60000))
    C.set_engine(eng)
    eng.exists = {}
    scratch = tempfile.mkdtemp(prefix='symx-')
    res = {'name': cfg['name'], 'cex': [], 'models': [], 'gap': None, 'complete': False, 'unknown': [], 'covered': 0, 'missing': None}
    cwd = os.getcwd()
    want = cfg.get('validate', 3)
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    n = 0
    gaps = {}
    try:
        while True:
            eng.begin()
            n += 1
            w = os.path.join(scratch, 'p%d' % n)
            os.makedirs(w)
            os.chdir(w)
            ctx.reset_env()
            env.FILES['ctl'] = None
            env.FakeXr.impl = None
            env.RAY_MOD._state['on'] = False
            env.RAY_MOD._state['objs'].clear()
            loader.reset()
            try:
                x = ctx.SymX(eng, w)
                guard.on(scratch)
                try: ctx.run_module(mod, x, cfg['params'])
                finally: guard.off()
                eng.stats.paths += 1
                if eng.path_obligations: res['covered'] += 1
                # keep a few completed paths for validation against the real package
                k = eng.stats.paths
                if len(res['models']) < want or rng.random() < want / k:
                    nice = []
                    for nm, (sh, cells) in eng.inputs.items():
                        nice += [z3.And(c.t <= 50, c.t >= -50) for c in cells if isinstance(c, C.SV) and not z3.is_rational_value(c.t)]
                    m = None
                    if nice:
                        r, m = eng.query(*nice, timeout=2000)
                    if m is None: m = eng.path_model()
                    if m is not None:
                        try:
                            snap = eng.snapshot(m)
                            ob = None
                            if not [d for d in eng.uf_defs if d[1] != 'sqrt'] and not eng.lossy:
                                ob = [[l, _obs(eng, v, m)] for l, v in x.obs]
                            if len(res['models']) < want: res['models'].append((snap, ob))
                            else: res['models'][rng.randrange(want)] = (snap, ob)
                        except C.Gap: pass
            except C.Infeasible: eng.stats.infeasible += 1
            except C.CounterExample as ce:
                eng.stats.paths += 1
                res['covered'] += 1
                res['cex'].append({'label': ce.label, 'models': ce.payload})
            except C.Gap as g:
                key = str(g)
                gaps[key] = gaps.get(key, 0) + 1
                eng.stats.paths += 1
                if os.environ.get('SYMX_DEBUG'): traceback.print_exc()
                m = _try_model(eng)
                if m is not None and len(res['models']) < want + 3: res['models'].append((m, None))
            except ctx.Missing as ms:
                res['missing'] = str(ms)
                break
            except C.Budget: raise
            except (Exception, env.Crash) as ex:
                eng.stats.paths += 1
                tb = traceback.format_exc()
                if os.environ.get('SYMX_DEBUG'): sys.stderr.write(tb)
                m = _try_model(eng)
                res['cex'].append({'label': 'raised %s: %s' % (type(ex).__name__, str(ex)[:200]), 'models': [m] if m else [], 'tb': tb[-1500:]})
            finally:
                os.chdir(cwd)
                env.FILES['ctl'] = None
                shutil.rmtree(w, ignore_errors=True)
            if len(res['cex']) >= 4 or sum(gaps.values()) >= 12: break
            if not eng.advance():
                res['complete'] = not gaps and not res['cex']
                for lab, v in eng.exists.items():
                    eng.stats.obligations += 1
                    if v: eng.stats.discharged += 1
                    elif v is None or not res['complete']: eng.unknown_labels.append(lab)
                    else: res['cex'].append({'label': lab, 'models': [m for m, _ in res['models'][:1]]})
                if res['cex']: res['complete'] = False
                break
    except C.Budget: pass
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    res['gap'] = gaps
    res['unknown'] = sorted(set(eng.unknown_labels))
    res['n_unknown'] = len(eng.unknown_labels)
    res['stats'] = eng.stats.__dict__
    res['seconds'] = time.time() - t0
    res['functions'] = sorted(SEEN)
    return res


def _obs(eng, v, m):
    out = []
    for c in list(A.obj(v).ravel())[:64]:
        if isinstance(c, np.ndarray): return None
        q = eng.value(c, m)
        if isinstance(q, str): q = None
        out.append(None if q is None or q != q else float(q))
    return out


def _try_model(eng):
    try:
        eng.deadline = max(eng.deadline, time.time() + 5)
        nice = []
        for nm, (sh, cells) in eng.inputs.items():
            nice += [z3.And(c.t <= 50, c.t >= -50) for c in cells if isinstance(c, C.SV) and not z3.is_rational_value(c.t)]
        r, m = eng.query(*nice, timeout=3000)
        if m is None: m = eng.path_model()
        return eng.snapshot(m) if m is not None else None
    except (C.Gap, C.Budget, z3.Z3Exception): return None


def _worker(args):
    prop, cfg, tier, deadline = args
    if time.time() > deadline - 1:
        return {'name': cfg['name'], 'cex': [], 'models': [], 'gap': {}, 'complete': False, 'unknown': [], 'covered': 0, 'missing': None,
                'n_unknown': 0, 'stats': {}, 'seconds': 0, 'functions': [], 'skipped': True}
    try:
        r = explore(prop, cfg, tier, deadline)
    except BaseException:
        r = {'name': cfg['name'], 'cex': [], 'models': [], 'gap': {'internal: ' + traceback.format_exc()[-800:]: 1}, 'complete': False, 'unknown': [],
             'covered': 0, 'missing': None, 'n_unknown': 0, 'stats': {}, 'seconds': 0, 'functions': []}
    return r


# ---------------------------------------------------------------- check

class Replayer:
    def __init__(self):
        e = dict(os.environ)
        e.setdefault('SETUPTOOLS_USE_DISTUTILS', 'local')
        e.setdefault('OMP_NUM_THREADS', '1')
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        self.p = subprocess.Popen([sys.executable, os.path.join(ROOT, 'symx', 'replay.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=e, text=True, cwd=tempfile.gettempdir())

    def run(self, jobs):
        h = json.loads(self.p.stdout.readline() or '{"ready": false, "error": "replay process ended"}')
        if not h['ready']:
            self.close()
            return None, h['error']
        for j in jobs: self.p.stdin.write(json.dumps(j) + '\n')
        self.p.stdin.close()
        out = {}
        for l in self.p.stdout:
            r = json.loads(l)
            out[r['job']] = r
        self.p.wait()
        return out, None

    def close(self):
        try: self.p.kill()
        except OSError: pass
        self.p.wait()


def known(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k['property'] == prop and k['status'] == 'known']


def check(pid, tier):
    t0 = time.time()
    prop = pid.lower()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('props.' + prop)
    rep = Replayer()
    cfgs = ctx.all_configs(mod, tier)
    total = getattr(mod, 'TOTAL', {}).get(tier, 240 if tier == 'quick' else 3000)
    deadline = t0 + total
    load_error = None
    results = []
    _watch()
    try:
        C.set_engine(C.Engine(deadline)); C.E.begin()
        loader.load('PyAnEn')
    except (Exception, C.Gap):
        load_error = traceback.format_exc()[-1500:]
    if load_error is None:
        # longest first
        order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get('weight', 1))
        with mp.get_context('fork').Pool(min(PROCS, len(cfgs)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_worker, [(prop, cfgs[i], tier, deadline) for i in order], chunksize=1):
                results.append(r)
    by = {c['name']: c for c in cfgs}
    jobs, meta = [], []
    per = {}
    for r in results:
        c = by[r['name']]
        for ce in r['cex']:
            at = []
            for m in ce['models']: at.append({'model': m})
            for m in ce['models']:
                for k in range(8): at.append({'model': m, 'jseed': seed * 100 + k, 'scale': (1e-9, 1e-3, 0.05, 0.3)[k % 4]})
            for k in range(40): at.append({'seed': seed * 1000 + k})
            jobs.append({'prop': prop, 'params': c['params'], 'attempts': at, 'seconds': 25})
            meta.append(('cex', r, ce))
        if r['models']:
            for m, ob in r['models']:
                jobs.append({'prop': prop, 'params': c['params'], 'attempts': [{'model': m}], 'seconds': 20})
                meta.append(('path', r, ob))
        if r['gap'] or r['n_unknown'] or not (r['complete'] or r['cex']):
            jobs.append({'prop': prop, 'params': c['params'], 'attempts': [{'seed': seed * 1000 + 500 + k} for k in range(60)], 'seconds': 25})
            meta.append(('sample', r, None))
    if load_error is not None:
        for c in cfgs:
            jobs.append({'prop': prop, 'params': c['params'], 'attempts': [{'seed': seed * 1000 + 500 + k} for k in range(60)], 'seconds': 15})
            meta.append(('sample', {'name': c['name']}, None))
    out, rerr = rep.run(jobs)
    viol, notes = [], []
    validated = mismatched = failed = 0
    if out is None:
        notes.append('the real package could not be imported: ' + (rerr or '')[-400:])
        out = {}
        if rerr and 'PyAnEn' in rerr:
            viol.append((None, 'the package cannot be imported', rerr[-1500:], {'params': {}, 'attempt': {}}))
    for i, (kind, r, extra) in enumerate(meta):
        o = out.get(i)
        if o is None: continue
        if o['status'] == 'violation':
            viol.append((r['name'], o['label'], o.get('detail', ''), {'params': jobs[i]['params'], 'attempt': jobs[i]['attempts'][o['attempt']], 'kind': kind}))
        elif o['status'] == 'error': notes.append('replay error in %s: %s' % (r['name'], o['detail'][-600:])); failed += 1
        elif o['status'] == 'missing': notes.append('public name not found: ' + o['detail'])
        elif kind == 'cex':
            notes.append('UNDECIDED %s: solver counterexample to "%s" not reproduced on the real code' % (r['name'], extra['label']))
        elif kind == 'path' and o['done']:
            validated += 1
            if extra is not None and o.get('obs') is not None:
                bad = _differs(extra, o['obs'])
                if bad: mismatched += 1; notes.append('encoding differs from the real code in %s: %s' % (r['name'], bad))
    kn = known(pid)
    unlisted = []
    printed = set()
    for v in viol:
        hit = next((k for k in kn if k.get('config') in (None, v[0]) and k['match'] in v[1] + ' ' + v[2]), None)
        if hit is None: unlisted.append(v)
        elif hit['what'] not in printed:
            printed.add(hit['what'])
            print('KNOWN-FINDING: property=%s %s' % (pid, hit['what']))
    for k in kn:
        if k['what'] not in printed: notes.append('known finding not seen in this run: ' + k['what'])
    st = C.Stats()
    for r in results: st.merge(r['stats'])
    gaps = {}
    for r in results:
        for g, n in r['gap'].items(): gaps[g] = gaps.get(g, 0) + n
        if r['missing']: notes.append('public name not found: ' + r['missing'])
        if r.get('skipped') or not (r['complete'] or r['cex'] or r['gap'] or r['missing']): notes.append('configuration %s not exhausted within its time budget' % r['name'])
        if r['unknown']: notes.append('undecided by the solver in %s: %d obligation(s): %s' % (r['name'], r['n_unknown'], '; '.join(r['unknown'][:4])))
        if r['complete'] and not r['covered']: notes.append('configuration %s reached no obligation' % r['name'])
    for g, n in gaps.items(): notes.append('not encodable (%d path(s)): %s' % (n, g[:300]))
    if load_error: notes.append('package not loadable by the encoder: ' + load_error[-600:])
    funcs = sorted({f for r in results for f in r['functions']})
    wall = time.time() - t0
    ncomplete = sum(1 for r in results if r['complete'])
    ev = evidence(pid, tier, mod, cfgs, results, st, validated, mismatched, funcs, notes, unlisted, wall, ncomplete, seed)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d/%d configurations exhausted, %d paths, %d forks, %d obligations (%d discharged), %d queries, solver %.1f s, %d traces validated, %.1f s' % (
        pid, tier, ncomplete, len(cfgs), st.paths, st.forks, st.obligations, st.discharged, st.queries, st.solver_s, validated, wall))
    for n in notes[:25]: print('note: ' + n)
    if unlisted:
        os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
        seen = set()
        for v in unlisted:
            key = (v[0], v[1])
            if key in seen: continue
            seen.add(key)
            p = os.path.join(ROOT, 'out', '%s-%d.json' % (pid, len(seen)))
            with open(p, 'w') as f:
                json.dump({'property': pid, 'config': v[0], 'what': v[1], 'detail': v[2], 'params': v[3]['params'], 'attempt': v[3]['attempt'],
                           'how': 'python check.py --replay ' + p}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  %s: %s %s' % (v[0], v[1], v[2].strip().splitlines()[-1] if v[2].strip() else ''))
            if len(seen) >= 6: break
        return 1
    return 0


def _differs(sym, conc):
    if [l for l, _ in sym] != [l for l, _ in conc]: return 'different observations'
    for (l, a), (_, b) in zip(sym, conc):
        if a is None or b is None: continue
        if len(a) != len(b): return l + ': sizes'
        for x, y in zip(a, b):
            if (x is None) != (y is None): return '%s: %r vs %r' % (l, x, y)
            if x is not None and abs(x - y) > 1e-4 * (1 + abs(y)) and not (np.isinf(x) and x == y): return '%s: %r vs %r' % (l, x, y)
    return None


def evidence(pid, tier, mod, cfgs, results, st, validated, mismatched, funcs, notes, viol, wall, ncomplete, seed):
    samples = []
    for r in sorted(results, key=lambda r: r['name']):
        for m, ob in r['models'][:1]:
            if len(samples) < 5: samples.append({'configuration': r['name'], 'inputs': {k: v['cells'][:12] for k, v in m['inputs'].items()}, 'draws': len(m['draws']), 'choices': m['choices'][:12]})
    return {
        'property': pid, 'level': 'model_checking', 'tier': tier, 'seed': seed, 'wall_s': round(wall, 2), 'violations': len(viol),
        'coverage': {
            'states': st.paths, 'transitions': st.forks, 'traces_validated_against_impl': validated, 'samples': samples,
            'what_is_counted': 'states: symbolic paths explored to the end; transitions: branch decisions taken by the solver; '
                               'traces_validated_against_impl: solver-chosen inputs of explored paths re-run on the real package with the same assertions',
            'technique': 'symbolic execution of the source in the working tree; Z3 decides every branch and assertion',
            'functions_encoded': funcs, 'bounds': getattr(mod, 'BOUNDS', ''), 'outside_bounds': getattr(mod, 'OUTSIDE', ''),
            'obligations': st.obligations, 'discharged': st.discharged, 'discharged_by_normal_form': st.by_normal_form,
            'discharged_within_tolerance': st.by_tolerance,
            'queries': st.queries, 'queries_sat': st.sat, 'queries_unsat': st.unsat, 'queries_unknown': st.unknown, 'solver_s': round(st.solver_s, 2),
            'infeasible_paths': st.infeasible, 'encoding_mismatches': mismatched,
            'configurations_exhausted': ncomplete, 'configurations_total': len(cfgs), 'exhaustive': ncomplete == len(cfgs),
            'configurations': [{'name': r['name'], 'exhausted': r['complete'], 'paths': r['stats'].get('paths', 0), 'obligations': r['stats'].get('obligations', 0),
                                'undecided': r['n_unknown'], 'seconds': round(r['seconds'], 2)} for r in sorted(results, key=lambda r: r['name'])],
            'notes': notes},
        'assumptions': ASSUMPTIONS + list(getattr(mod, 'ASSUMES', []))}


ASSUMPTIONS = [
    'numbers are real numbers (no rounding), infinities only where the code creates them; differences below 1e-6 relative are not violations',
    'numpy, pandas, scikit-learn, ray and process pools behave as modelled in symx/ (validated by re-running path inputs on the real libraries)',
    'incomplete gamma, normal, Student-t, exp, log and lgamma are uninterpreted functions with their monotonicity, range, symmetry and inverse laws',
]


def replay_file(path):
    d = json.load(open(path))
    rep = Replayer()
    out, err = rep.run([{'prop': d['property'].lower(), 'params': d['params'], 'attempts': [d['attempt']], 'seconds': 60}])
    if out is None: print(err); return 2
    print(json.dumps(out[0], indent=1))
    if out[0]['status'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0
