"""C16: IOU is intersection over union of the two event sets."""
from .common import *
BOUNDS = 'up to 4 cells of rank 1-3, any values in [-100, 100] or missing, any threshold, over and below; event probabilities of 2 members, or any probability in [0, 1]'
OUTSIDE = 'larger arrays'


def configs(tier):
    out = []
    cs = [((2,), None), ((3,), None), ((2, 2), [0]), ((2, 2), [-1]), ((1, 2, 1), [1, 0])]
    if tier != 'quick': cs += [((4,), None), ((2, 2), None), ((2, 3), [1])]
    for kind in ('det', 'direct', 'ens', 'gauss', 'prob', 'ensprob', 'probdirect', 'hurdle'):
        for sh, ax in cs:
            for side in ('over', 'below'):
                if tier == 'quick' and kind in ('gauss', 'direct', 'hurdle') and len(sh) != 2 and sh != (2,): continue
                out.append({'name': '%s-%s-%s-%s' % (kind, name(sh), axname(ax), side), 'params': {'kind': kind, 'shape': list(sh), 'ax': ax, 'side': side}, 'weight': len(sh)})
    return out


def run(X, kind, shape, ax, side):
    shape, ax = tuple(shape), tup(ax)
    over = side == 'over'
    hit = (lambda x, t: x > t) if over else (lambda x, t: x < t)
    if kind in ('det', 'direct', 'ens', 'gauss'):
        t = X.real('t', -100, 100)
        nan = kind in ('det', 'direct')
        f, o = X.reals('f', shape, -100, 100, nan=nan), X.reals('o', shape, -100, 100, nan=nan)
        kw = {side: t}
        if kind == 'det': got = X.cls('VerifyDeterm')(f, o, avg_axis=ax).iou_determ(**kw)
        elif kind == 'direct': got = X.fn('utils_verify', 'iou_determ')(f, o, axis=ax, **kw)
        elif kind == 'ens': got = X.cls('VerifyEnsemble')(X.arr((2,) + shape, lambda m, *k: f[k] + (1 if m else -1)), o, ensemble_axis=0, avg_axis=ax).iou_determ(**kw)
        else: got = X.cls('VerifyProbGaussian')({'mu': f, 'sigma': X.np.ones(shape)}, o, avg_axis=ax).iou_determ(**kw)
        if kind == 'ens':
            for k in X.np.ndindex(*shape): X.apart(f[k], t)
        fe, oe = X.arr(shape, lambda *k: X.ite(hit(f[k], t), 1.0, 0.0)), X.arr(shape, lambda *k: X.ite(hit(o[k], t), 1.0, 0.0))
        v = None
    else:
        p = X.real('p', 0, 1)
        t = X.real('t', -100, 100)
        o = X.reals('o', shape, -100, 100)
        if kind == 'probdirect':
            fp = X.reals('fp', shape, 0, 1, nan=True)
            oe = X.arr(shape, lambda *k: X.ite(hit(o[k], t), 1.0, 0.0))
            got = X.fn('utils_verify', 'iou_prob')(fp, oe > 0.5, axis=ax, **{side: p})
        else:
            kw = {'over': (t, p), 'below': (None, None)} if over else {'below': (t, p), 'over': (None, None)}
            if kind == 'hurdle':
                q = X.reals('q', shape, 0, 1)
                X.assume(t <= 0)
                v = X.cls('VerifyProbGammaHurdle')({'pop': q, 'mu': X.np.ones(shape), 'sigma': X.np.ones(shape)}, o, avg_axis=ax)
                fp = X.arr(shape, lambda *k: q[k] if over else 1 - q[k])
            elif kind == 'prob':
                mu = X.reals('mu', shape, -100, 100)
                v = X.cls('VerifyProbGaussian')({'mu': mu, 'sigma': X.np.ones(shape)}, o, avg_axis=ax)
                fp = X.arr(shape, lambda *k: 1 - X.phi(t - mu[k]) if over else X.phi(t - mu[k]))
            else:
                f = X.reals('f', shape + (2,), -100, 100)
                v = X.cls('VerifyEnsemble')(f, o, ensemble_axis=-1, avg_axis=ax)
                def frac(*k):
                    q = X.count([m <= t for m in members(f, k, 2, False)]) / 2
                    return 1 - q if over else q
                fp = X.arr(shape, frac)
            if kind in ('hurdle', 'prob'):
                for k in X.np.ndindex(*shape): X.apart(fp[k], p)
            got = v.iou_prob(**kw)
            X.refuses(lambda: v.iou_prob(over=(t, 2.0), below=(None, None)), 'a probability outside [0, 1] is refused')
        fe, oe = X.arr(shape, lambda *k: X.ite(hit(fp[k], p), 1.0, 0.0)), X.arr(shape, lambda *k: X.ite(hit(o[k], t), 1.0, 0.0))
    X.prove(tuple(X.np.shape(got)) == X.kept_shape(o, ax), 'one value per kept position')
    for (kk, a), (_, b) in zip(X.slices(fe, ax), X.slices(oe, ax)):
        g = X.at(got, kk)
        both, any_ = X.sum([X.ite(X.and_(x > 0.5, y > 0.5), 1.0, 0.0) for x, y in zip(a, b)]), X.sum([X.ite(X.or_(x > 0.5, y > 0.5), 1.0, 0.0) for x, y in zip(a, b)])
        if X.decide(any_ < 0.5):
            X.prove(X.isnan(g), 'missing when neither event occurs')
            continue
        X.prove(X.not_(X.isnan(g)), 'not missing when an event occurs')
        X.eq(g * any_, both, 'intersection over union')
        X.prove(X.and_(g >= 0, g <= 1), 'in [0, 1]')
        X.prove(X.iff(g == 1, X.allof([X.iff(x > 0.5, y > 0.5) for x, y in zip(a, b)])), 'one exactly when the event sets coincide')
