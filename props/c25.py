"""C25: saving touches nothing but its working directory."""
import os
from .common import *
BOUNDS = ('every history of up to three operations (metric calls, setters, switching saving off or on with the same or another directory, with or without starting from scratch, a new verifier) after '
          'the construction of a verifier, for absolute, relative, home-relative, nested and slash-terminated directories that exist with earlier contents, exist empty or do not exist; symbolic threshold, all kinds of verifiers')
OUTSIDE = 'custom save names that contain path separators; memory-saving integration (its own directory); symbolic links'
ASSUMES = ['file effects are observed through the interpreter\'s audit events and by comparing the directory tree before and after every operation; an effect outside the scratch directory is refused and reported']
from . import c24
from symx import guard

OPS = ['metric', 'metric2', 'axis', 'boot', 'disable', 'enable-scratch', 'enable-keep', 'new-keep', 'other-scratch']


def configs(tier):
    out = []
    for kind in ('determ', 'ens', 'gauss', 'hurdle'):
        for form in ('abs', 'rel', 'home', 'nested', 'slash', 'dot', 'none'):
            if tier == 'quick' and kind != 'ens' and form not in ('abs', 'none'): continue
            for pre in ('full', 'empty', 'absent'):
                if form == 'none' and pre != 'full': continue
                if tier == 'quick' and pre == 'empty' and (kind, form) != ('ens', 'abs'): continue
                for scratch in (True, False):
                    out.append({'name': '%s-%s-%s-%s' % (kind, form, pre, scratch), 'params': {'kind': kind, 'form': form, 'pre': pre, 'scratch': scratch, 'n': 2 if tier == 'quick' and (kind, form) != ('ens', 'abs') else 3}, 'validate': 2})
    return out


def tree(root):
    """Every file and directory with its contents."""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds: out[os.path.join(d, x)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, 'rb') as h: out[p] = h.read()
    return out


def run(X, kind, form, pre, scratch, n):
    X.names_matter()
    (f, o), kw = c24.data(X, kind, (2,))
    cls = X.cls(c24.CLS[kind])
    home = os.path.join(X.tmp, 'home')
    os.makedirs(home)
    old = os.environ.get('HOME')
    os.environ['HOME'] = home
    try: return inner(X, kind, form, pre, scratch, n, f, o, kw, cls, home)
    finally:
        if old is None: os.environ.pop('HOME', None)
        else: os.environ['HOME'] = old


def inner(X, kind, form, pre, scratch, n, f, o, kw, cls, home):
    spec, real = {'abs': (X.tmp + '/work', X.tmp + '/work'), 'rel': ('work', X.tmp + '/work'), 'home': ('~/work', home + '/work'),
                  'nested': (X.tmp + '/p/q/work', X.tmp + '/p/q/work'), 'slash': (X.tmp + '/p/work/', X.tmp + '/p/work'), 'dot': ('./p/../work', X.tmp + '/work'),
                  'none': (None, X.tmp + '/work')}[form]
    if form == 'dot': os.makedirs('p')
    other = X.tmp + '/other'
    def fill(d):
        os.makedirs(os.path.join(d, 'sub'))
        for p in ('keep.txt', 'sub/keep.txt', 'error.pkl.bak', 'old.tmp', '.hidden'):
            with open(os.path.join(d, p), 'w') as h: h.write('earlier contents of ' + p)
    if pre != 'absent':
        if pre == 'full': fill(real)
        else: os.makedirs(real)
    fill(other)
    # bystanders: parents, siblings with similar names
    for p in (os.path.dirname(real) + '/bystander.txt', real + '2/keep.txt', X.tmp + '/workspace/keep.txt', home + '/keep.txt', X.tmp + '/brier.pkl', X.tmp + '/error.pkl'):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h: h.write('bystander')
    s = X.real('s', 0.5, 4)
    m1, a1 = {'determ': ('iou_determ', {'over': s}), 'ens': ('brier', {'over': s}), 'gauss': ('brier', {'below': s}), 'hurdle': ('cdf', {'over': s})}[kind]
    m2 = {'determ': 'error', 'ens': 'spread', 'gauss': 'crps', 'hurdle': 'brier'}[kind]
    a2 = {'below': 1.5} if kind == 'hurdle' else {}
    st = {'dir': None, 'scratch': scratch}
    earlier = set(os.path.join(d, p) for d in (real, other) for p in ('keep.txt', 'sub/keep.txt', 'error.pkl.bak', 'old.tmp', '.hidden', 'sub'))

    def step(what, op, wipes):
        """Run op; only st['dir'] (after it) may have changed."""
        before = tree(X.tmp)
        guard.STATE['events'] = []
        try: r = op()
        except PermissionError:
            if not guard.STATE['events']: raise
            r = None
        X.prove(not guard.STATE['events'], what + ' touches nothing outside: %s' % (guard.STATE['events'][:1],))
        after = tree(X.tmp)
        d = st['dir']
        changed = [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)]
        # directories leading to the working directory may have to be made
        allowed = lambda p: d is not None and (p == d or p.startswith(d + '/') or after.get(p, 0) is None and p not in before and d.startswith(p + '/'))
        out = sorted(p[len(X.tmp):] for p in changed if not allowed(p))
        X.prove(not out, what + ' changes nothing outside the working directory: %s' % out[:2])
        if not (wipes and st['scratch']):
            lost = sorted(p[len(X.tmp):] for p in changed if p in earlier or p.endswith('.pkl') and p in before and p not in after)
            X.prove(not lost, what + ' keeps earlier contents: %s' % lost[:2])
        return r

    v = [None]
    def make(scr):
        v[0] = cls(f, o, **dict(kw, working_directory=st_spec[0], start_from_scratch=scr))
    st_spec = [spec]
    st['dir'] = real if spec is not None else None
    step('construction', lambda: make(scratch), True)
    for i in range(n):
        op = OPS[X.choose(len(OPS), 'op')]
        if op == 'metric': step('a metric', lambda: getattr(v[0], m1)(**a1), False)
        elif op == 'metric2': step('a metric', lambda: getattr(v[0], m2)(**a2), False)
        elif op == 'axis': step('set_avg_axis', lambda: v[0].set_avg_axis((0,)), True)
        elif op == 'boot': step('set_boot_samples', lambda: v[0].set_boot_samples(None), True)
        elif op == 'disable':
            st['dir'] = None
            step('disable_saving', lambda: v[0].disable_saving(), False)
        elif op in ('enable-scratch', 'enable-keep'):
            st['scratch'] = op == 'enable-scratch'
            st_spec[0] = spec if spec is not None else 'work'
            st['dir'] = real
            step(op, lambda: v[0].enable_saving(st_spec[0], start_from_scratch=st['scratch']), True)
        elif op == 'other-scratch':
            st['scratch'] = True
            st_spec[0] = other
            st['dir'] = other
            step(op, lambda: v[0].enable_saving(other, start_from_scratch=True), True)
        else:
            st['scratch'] = False
            st['dir'] = (other if st_spec[0] == other else real) if st_spec[0] is not None else None
            step(op, lambda: make(False), True)
    # and every history ends with a metric call
    step('a metric', lambda: getattr(v[0], m1)(**a1), False)
