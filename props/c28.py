"""C28: the Diebold-Mariano statistic and p-value."""
from .common import *
BOUNDS = 'series of 3-4 values (thorough: 5) of rank 1-2, horizons 1-3, rescaling factors 3 and 1/2, criteria MSE, MAD, MAPE and poly with powers 2-4; any values with a positive long-run variance estimate'
OUTSIDE = 'longer series; variance estimates of zero or below; the accuracy of the Student-t distribution function'


def configs(tier):
    out = []
    for crit, power in (('MSE', 2), ('MAD', 2), ('MAPE', 2), ('poly', 2), ('poly', 3), ('poly', 4)):
        for n, sh in ((3, (3,)), (4, (2, 2))) if tier == 'quick' else ((3, (3,)), (4, (2, 2)), (5, (5,))):
            for h in (1, 2, 3):
                if h >= n: continue
                for what in ('value', 'swap', 'scale'):
                    if what == 'scale' and crit in ('MAD', 'MAPE'): continue     # |c e| = c |e|: follows from the value of the statistic
                    if tier == 'quick' and what != 'value' and (n == 4 or power == 4): continue
                    if tier == 'quick' and what != 'value' and h == 2 and crit == 'poly': continue
                    if tier == 'quick' and n == 4 and power > 2 and h != 2: continue
                    out.append({'name': '%s-%s%d-%d-%d' % (what, crit, power, n, h), 'params': {'crit': crit, 'power': power, 'shape': list(sh), 'h': h, 'what': what}, 'weight': n, 'timeout': 6000 if tier == 'quick' else 60000})
    for bad in ('crit', 'h0', 'hn', 'len'): out.append({'name': 'refuse-' + bad, 'params': {'crit': bad, 'power': 0, 'shape': [3], 'h': 0, 'what': 'refuse'}})
    return out


def loss(X, crit, power, a, p):
    e = a - p
    if crit == 'MSE': return e * e
    if crit == 'MAD': return X.abs(e)
    if crit == 'MAPE': return X.abs(e / a)
    r = e
    for _ in range(power - 1): r = r * e
    return r


def run(X, crit, power, shape, h, what):
    shape = tuple(shape)
    n = 1
    for s in shape: n *= s
    f = X.fn('utils_significance', 'diebold_mariano_test')
    a, p, q = X.reals('a', shape, -50, 50), X.reals('p', shape, -50, 50), X.reals('q', shape, -50, 50)
    if what == 'refuse':
        if crit == 'crit': X.refuses(lambda: f(a, p, q, 1, 'RMSE'), 'an unknown criterion is refused')
        if crit == 'h0': X.refuses(lambda: f(a, p, q, 0), 'a horizon below one is refused')
        if crit == 'hn': X.refuses(lambda: f(a, p, q, 3), 'a horizon of the series length is refused')
        if crit == 'len': X.refuses(lambda: f(a, p, X.reals('r', (4,), -50, 50), 1), 'different lengths are refused')
        return
    if crit == 'MAPE':
        for x in X.cells(a): X.assume(X.or_(x >= 0.5, x <= -0.5))
    d = [loss(X, crit, power, x, y) - loss(X, crit, power, x, z) for x, y, z in zip(X.cells(a), X.cells(p), X.cells(q))]
    m = X.mean(d)
    g = [X.sum([(d[i + k] - m) * (d[i] - m) for i in range(n - k)]) / (n - k) for k in range(h)]
    V = (g[0] + 2 * X.sum(g[1:]) if h > 1 else g[0]) / n
    X.assume(V >= 0.01)
    if not X.symbolic: X.assume(V >= 1e-6 * max(x * x for x in d))
    kw = {} if crit in ('MSE', 'MAD', 'MAPE') else {'power': power}
    run1 = lambda a, p, q: [X.scalar(v) for v in f(a, p, q, h=h, crit=crit, **kw)]
    s, pv = run1(a, p, q)
    if what == 'value':
        adj = ((n + 1 - 2 * h + h * (h - 1) / n) / n) ** 0.5
        X.eq(s, adj * m / X.sqrt(V), 'statistic')
        X.eq(pv, 2 * X.tcdf(0 - X.abs(s), n - 1), 'two-sided Student-t tail')
        X.prove(X.and_(pv >= -1e-9, pv <= 1 + 1e-9), 'p-value in [0, 1]')
        return
    if what == 'swap': s2, p2 = run1(a, q, p); X.eq(s2, 0 - s, 'sign flips'); X.eq(p2, pv, 'p-value kept'); return
    c = 3.0 if h == 1 else 0.5
    sc = lambda z: X.arr(shape, lambda *k: c * z[k])
    s2, p2 = run1(sc(a), sc(p), sc(q))
    ck = c if crit == 'MAD' else 1.0 if crit == 'MAPE' else c * c * c if power == 3 else c * c if power == 2 else c * c * c * c
    # the statistic keeps its value: same quotient, with numerator and root both multiplied by c^k
    adj = ((n + 1 - 2 * h + h * (h - 1) / n) / n) ** 0.5
    R, R2 = X.sqrt(V), X.sqrt(ck * ck * V)
    X.eq(s2, adj * ck * m / R2, 'statistic of rescaled series')
    X.eq(R2 * R2, (ck * R) * (ck * R), 'statistic of rescaled series')
    X.prove(X.and_(R2 >= 0, ck * R >= 0), 'statistic of rescaled series')
    X.eq(p2, 2 * X.tcdf(0 - X.abs(s2), n - 1), 'p-value of rescaled series')
