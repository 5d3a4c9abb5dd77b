"""Differential test of the numpy stand-ins: every expression, evaluated over symbols pinned to concrete values,
must give what the real numpy gives for those values.  Run: SYMX_PY=1 /opt/venv/bin/python -W ignore tools/standins.py"""
import os, sys, time, traceback
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np
from symx import core as C, loader, arr as A
from symx.npx import np_proxy as NP

V = [np.array([[1., 3., -2.], [0., 5., 4.]]), np.array([[2., -1., 1.5], [7., 0.5, -3.]]), np.array([3., 1., 2., 1.]),
     np.array([1., np.nan, -4., 2.]), np.array([0, 2, 1, 2])]
EXPR = '''np.sum(a) np.sum(a,axis=0) np.add.reduce(a,axis=1) np.add.reduceat(c,[0,1,3]) np.add.reduceat(a,[0,2],axis=1) np.add.accumulate(c) np.multiply.outer(c,e)
np.convolve(c,d[2:]) np.convolve(c,c,'same') np.correlate(c,c,'full') np.correlate(c,c[:2]) np.correlate(c[:2],c,'full') np.nanprod(d) np.nancumsum(d) np.cumulative_sum(c) np.isposinf(d) np.isneginf(d)
np.nanargmax(d) np.nanargmin(d) np.pad(c,1) np.pad(a,((1,0),(0,2)),constant_values=5) np.union1d(c,e) np.intersect1d(c,e) np.setdiff1d(c,e) np.unique_values(c) np.unique_counts(c).counts
np.tensordot(a,b) np.tensordot(a,b,axes=(0,0)) np.tensordot(a,b.T,axes=1) np.vecdot(a,b) np.matvec(a,b[0]) np.vecmat(c[:2],a) np.piecewise(c,[c<2,c>=2],[-1,lambda x:x*2]) np.piecewise(c,[c<2],[1.5,lambda x:x+1])
np.argpartition(c,1)[:1] np.copysign(c,d) np.deg2rad(c) np.fmod(a,b) np.where(a>b,a,b) np.select([c<2,c<3],[c,-c],9) np.clip(a,0,2) np.sort(d) np.argsort(d) np.sort(a,axis=0)
np.take_along_axis(a,np.argsort(a,axis=1),axis=1) np.median(a,axis=1) np.nanmedian(d) np.quantile(c,[.1,.5]) np.percentile(a,30,axis=0) np.nanpercentile(d,70) np.digitize(c,[1,2]) np.searchsorted(np.sort(c),2.) np.bincount(e,minlength=4) np.bincount(e,weights=c)
np.histogram(c,bins=3)[0] np.histogram(c,bins=[0,1,2,3])[0] np.interp(c,[0.,2.,4.],[1.,5.,2.]) np.trapezoid(a,axis=0) np.trapezoid(c,x=np.cumsum(c)) np.diff(a) np.diff(a,axis=0) np.einsum('ij,ij->i',a,b) np.einsum('ij,kj->ik',a,b) np.dot(c,c) a@b.T np.inner(a,b) np.outer(c,c)
np.cov(a) np.corrcoef(a[0],b[0]) np.var(a,axis=0) np.std(c,ddof=1) np.nanvar(d) np.nanstd(d) np.nanmean(d) np.nansum(d) np.nanmax(d) np.nanmin(d) np.ptp(a,axis=1) np.max(d) np.argmax(a,axis=1) np.argmin(c) np.average(c,weights=e+1) np.count_nonzero(a>b,axis=0)
np.any(a>b,axis=0) np.all(a<9) np.isnan(d) np.nan_to_num(d) np.isclose(c,e) np.allclose(c,c) np.array_equal(c,e) np.isin(c,[1,2]) np.round(a/3,2) np.floor(b) np.ceil(b) np.rint(b) np.sign(a) np.heaviside(a,.5) np.maximum(a,b) np.fmax(d,c) np.minimum(d,c) np.mod(a,2) a//2 divmod(a,2)[1] np.modf(b)[0]
np.logical_and(a>0,b>0) (a>0)&(b>0) ~(a>0) (a>0)^(b>0) np.logical_not(a) np.square(a) np.power(a,2) a**3 np.sqrt(np.abs(a)) np.hypot(a,b) np.reciprocal(c) np.cumprod(c)
np.apply_along_axis(lambda v:v.max()-v[0],1,a) np.apply_along_axis(np.sort,0,a) np.vectorize(lambda x,y:x+y)(a,b) np.moveaxis(a,0,1) np.rollaxis(a,1) np.swapaxes(a,0,1) a.T a[::-1] a[:,None,:] a[...,0] a[a>0] a[np.array([1,0])] a[[0,1],[2,0]] np.take(a,[2,0],axis=1) np.compress([True,False],a,axis=0) np.extract(a>0,a) np.nonzero(a>0)[0] np.argwhere(a>0) np.flatnonzero(a>0)
np.stack([a,b],axis=-1) np.hstack([a,b]) np.vstack([a,b]) np.dstack([a,b]) np.concatenate([a,b],axis=None) np.tile(c,2) np.repeat(c,2) np.roll(a,1,axis=1) np.flip(a,0) np.delete(a,1,axis=1) np.insert(c,1,9.) np.append(c,5.) np.split(c,2)[1] np.array_split(c,3)[0] np.tril(a) np.triu(a) np.broadcast_to(c,(2,4)) np.expand_dims(c,1) np.squeeze(c[None]) np.ravel(a) a.flatten() a.reshape(3,2) a.reshape(-1)
a.sum() a.mean(0) a.std(1) a.var() a.min(axis=1) a.max() a.argmax() a.cumsum() a.prod() a.clip(0,1) a.round(1) a.any() a.all() a.dot(b.T) a.take([0,1]) a.repeat(2) a.astype(int) c.astype(bool) c.astype(np.float32) (a>0).astype(int).sum(axis=0) (a>b).mean() (a>b).sum() a.nonzero()[1] np.sort(c).searchsorted(2) a.trace() a.diagonal() a.swapaxes(0,1) a.squeeze() sorted(c.tolist()) sum(c) max(c) min(c) abs(c) len(c)
np.divide(a,b,out=np.zeros_like(a),where=b>0) np.add(a,b,out=np.empty_like(a)) np.multiply(c,2,dtype=float) np.mean(a,where=a>0) np.sum(a,where=a>0) np.max(a,initial=-9,where=a<0) np.nanquantile(d,.5) np.lexsort((c,e)) np.unique(c,return_counts=True)[1] np.unique(e,return_inverse=True)[1] np.fromiter((x*2for x in c),float) np.array([x+1for x in c]) np.asarray(c).tolist() np.full(3,c[0]) np.full_like(a,c[1]) np.linspace(c[1],c[0],4) np.arange(4)*c np.meshgrid(c,e)[0] np.ix_([0,1],[1,2])[0] a[np.ix_([0,1],[1,2])] np.atleast_2d(c) np.column_stack([c,d]) np.cumsum(a,axis=1) np.ndim(a) np.size(a) np.shape(a) np.diag(a@a.T) np.eye(2)@a np.prod(c,where=c>1) np.any(a>0,axis=0,where=b>0) np.logical_or.reduce(a>3,axis=1) np.matmul(a[None],b.T) np.dot(a[None],b.T) np.min(c,initial=7,where=c>1) np.add.reduce(a,axis=None,where=a>0) np.maximum.reduce(a,axis=1,initial=4) a.max(axis=-1,keepdims=True) np.mean(a>0,axis=0) np.sum(a,axis=(0,1)) np.mean(a,axis=(1,0)) np.logical_and.reduce([c>0,c<3]) np.ediff1d(c)'''.split('\n')
EX = []
for line in EXPR:
    depth, cur = 0, ''
    for ch in line + ' ':
        if ch == ' ' and depth == 0 and not cur.endswith(('lambda',)):
            if cur: EX.append(cur)
            cur = ''
            continue
        depth += (ch in '([{') - (ch in ')]}')
        cur += ch


def cells(x):
    if isinstance(x, (list, tuple)): return [y for e in x for y in cells(e)]
    if isinstance(x, np.ndarray): return list(x.view(np.ndarray).ravel())
    return [x]


def shape(x): return np.shape(x) if isinstance(x, np.ndarray) else None


def main():
    loader.load('PyAnEn') if False else None
    bad = gaps = 0
    only = sys.argv[1:]
    for ex in only or EX:
        eng = C.Engine(time.time() + 30); C.set_engine(eng); C.E.begin()
        names = 'abcde'
        env = {}
        for n, v in zip(names, V):
            import z3
            r = np.empty(v.shape, dtype=object)
            for k in np.ndindex(v.shape):
                x = v[k]
                if isinstance(x, np.floating) and np.isnan(x): r[k] = float('nan'); continue
                t = z3.Real('%s%s' % (n, '_'.join(map(str, k))))
                C.E.assume(t == z3.RealVal(float(x)))
                r[k] = C.SV(t, i=v.dtype.kind == 'i') if True else None
            env[n] = A.wrap(r, v.dtype)
        real = dict(zip(names, [v.copy() for v in V]), np=np)
        with np.errstate(all='ignore'): want = eval(ex, real)
        try: got = eval(ex, dict(env, np=NP))
        except C.Gap as g:
            gaps += 1; print('GAP   %-50s %s' % (ex, g)); continue
        except BaseException as x:
            bad += 1; print('ERROR %-50s %r' % (ex, x))
            if only: traceback.print_exc()
            continue
        if shape(want) not in (None, ()) and shape(want) != shape(got): bad += 1; print('SHAPE %-50s %s %s' % (ex, shape(got), shape(want))); continue
        g, w = cells(got), cells(want)
        if len(g) != len(w): bad += 1; print('COUNT', ex, g, w); continue
        if isinstance(want, np.ndarray) and isinstance(got, A.SymArray) and got.dtype != want.dtype: print('DTYPE %-50s %s %s' % (ex, got.dtype, want.dtype)); bad += 1
        m = z3.Solver(); m.add(*C.E.path if hasattr(C.E, 'path') else [])
        for x, y in zip(g, w):
            y = float(y)
            if not C.is_sym(x): ok = abs(float(x) - y) < 1e-6 or (np.isnan(float(x)) and np.isnan(y)) or float(x) == y
            elif np.isnan(y): ok = not C.E.satisfiable(C.z3.Not(C.bz(C.isnan(x))))
            else: ok = not C.E.satisfiable(C.bz(C.or_(C.isnan(x), C.gt(C.fabs(C.sub(C.conv(x) if False else (C.ite(x, 1, 0) if isinstance(x, C.SB) else x), y)), 1e-6))))
            if not ok: bad += 1; print('VALUE %-50s %s want %s' % (ex, str(x)[:80], y)); break
    print('%d expressions, %d wrong, %d not encodable' % (len(only or EX), bad, gaps))
    return 1 if bad else 0


if __name__ == '__main__': sys.exit(main())
