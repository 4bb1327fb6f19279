"""differential self-test of the numpy stand-in (lib/symnp.py): many expressions are evaluated symbolically, the
symbolic result is evaluated at a witness of each explored path and compared with real numpy.  Not a check:
it looks for mistakes of the stand-in.    python3-vt tools/selftest.py"""
import sys,os
sys.path[:0]=['/verif/lib','/verif/harness']
import poly, solver, ctx as C, loader, numpy as np0
from symnp import plain
loader.start_tracking(); poly.reset_world()
ex=solver.Explorer(seed=1)
T='''np.interp(x,[0.,1,2],[0.,2,3])
np.clip(A,0,1)
np.where(A>1,A,0)
np.select([A>1,A<.5],[A,2*A],0)
np.piecewise(v,[v<1,v>=1],[0.,1.])
np.piecewise(v,[v<1,v>=1],[lambda t:t,lambda t:2*t])
np.digitize(v,[0.,1.])
np.gradient(v)
np.diff(v)
np.diff(A,axis=0)
np.cumsum(v)
np.cumprod(v)
np.bincount([0,1,1],weights=v)
np.bincount([0,1,1],weights=v,minlength=5)
np.unique(v)
np.unique(iv)
np.unique(iv,return_inverse=True)
np.unique([3,1,1],return_index=True,return_counts=True)
np.isin(iv,[1,2])
np.in1d(iv,[1,2])
np.setdiff1d(iv,[1])
np.intersect1d(iv,[1,2])
np.union1d(iv,[1,2])
np.flatnonzero(v>1)
np.nonzero(A>1)
np.argwhere(v>1)
np.argsort(v)
np.argmax(v)
np.argmin(A,axis=0)
np.lexsort((v,v))
np.sort(v)
np.searchsorted([0.,1.,2.],v)
np.searchsorted([0,1,2],iv)
A[np.ix_([0,1],[1,0])]
np.block([[A,A],[A,A]])
np.tile(v,2)
np.tile(v,(2,1))
np.repeat(v,2)
np.repeat(A,2,axis=0)
np.kron(A,np.eye(2))
np.tensordot(A,A,axes=1)
np.tensordot(A,A,axes=([0],[1]))
np.outer(v,v)
np.cross(v,v)
np.roll(v,1)
np.flip(v)
np.flipud(A)
np.fliplr(A)
np.rot90(A)
np.pad(v,1)
np.insert(v,0,5)
np.insert(A,0,5,axis=1)
np.delete(v,0)
np.delete(A,0,axis=1)
np.append(v,1)
np.take(v,[0,1])
np.take(A,[0,1],axis=1)
np.take_along_axis(A,np.array([[0],[1]]),axis=1)
np.choose([0,1,0],[v,2*v])
np.compress([True,False,True],v)
np.fromiter((t for t in v),dtype=float)
np.fromiter((t for t in v),float,count=3)
np.fromfunction(lambda i,j:i+j,(2,2))
np.apply_along_axis(np.sum,1,A)
np.apply_along_axis(lambda r: r[0],1,A)
np.vectorize(lambda t:t*2)(v)
np.broadcast_to(v,(2,3))
np.broadcast_arrays(v,A3)
np.meshgrid(v,v)
np.mgrid[0:2,0:3]
np.ogrid[0:2,0:3]
np.indices((2,3))
np.unravel_index(3,(2,2))
np.ravel_multi_index(([0,1],[1,1]),(2,2))
np.polyval([1,2,3],v)
np.polyfit([0,1,2],v,1)
np.hypot(v,v)
np.arctan2(v,v)
np.deg2rad(v)
np.radians(v)
np.sign(v)
np.allclose(v,v)
np.isclose(v,1)
np.array_equal(v,v)
np.count_nonzero(iv)
np.count_nonzero(v>1)
np.full_like(v,3)
np.trace(A)
np.triu(A)
np.tril(A,-1)
A[np.triu_indices(2)]
A[np.diag_indices(2)]
np.fill_diagonal(A.copy(),0)
np.identity(3)
np.linalg.norm(A,axis=1)
np.linalg.norm(v)
np.linalg.eigh(A+A.T)
np.linalg.eigvalsh(A+A.T)
np.linalg.multi_dot([A,A,A])
np.linalg.slogdet(A)
np.linalg.det(np.array([A,A]))
np.linalg.inv(np.array([A,A]))
np.linalg.solve(np.array([A,A]),np.array([A,A]))
np.linalg.solve(A,v[:2])
np.trapz(v)
np.add.reduce(A,axis=0)
np.add.accumulate(v)
np.add.outer(v,v)
np.multiply.outer(v,v)
np.maximum.reduce(v)
np.maximum(v,1)
np.minimum.accumulate(v)
np.ptp(v)
np.nanmax(v)
np.nansum(v)
np.nan_to_num(v)
np.mean(A,axis=0)
np.average(v,weights=[1,2,3])
np.median(v)
np.std(v)
np.var(v)
np.prod(v)
np.dot(A,v[:2])
np.vdot(v,v)
np.inner(v,v)
np.matmul(A,A)
np.einsum('ij,jk->ik',A,A)
np.einsum('i,i',v,v)
np.floor(w)
np.ceil(w)
np.trunc(w)
np.sign(w)
np.rint(w)
np.abs(w)
np.fmod(w,1.5)
np.mod(w,1.5)
w//1
w%1
w.astype(int)
np.hypot(w,v)
np.arctan2(w,w[::-1])
np.cos(np.arctan2(w,w[::-1])/2)
np.sin(np.arctan2(w,w[::-1])/2)
np.cos(np.arctan2(w,w[::-1]))
np.sin(np.arctan(w))
np.cos(np.arcsin(w/3))
np.sin(np.arccos(w/3))
np.copysign(2.,w)
np.heaviside(w,.5)
np.maximum.accumulate(w)
np.argsort(S,axis=1)
np.argsort(w)
np.sort(S,axis=0)
np.unique(w)
np.unique(w,return_inverse=True)
np.interp(w,[-1.,0.,1.],v)
np.interp(w,v,w)
np.median(S,axis=1)
np.std(S,axis=0)
np.var(w,ddof=1)
np.digitize(w,[-1.,0.,1.])
np.searchsorted([-1.,0.,1.],w,side='right')
np.argmax(S,axis=1)
np.argmin(w)
np.gradient(w)
np.gradient(w,.5)
np.lexsort((w,iv))
np.take_along_axis(S,np.argsort(S,axis=1),axis=1)
np.linalg.solve(A,A)
np.linalg.solve(A,v[:2])
np.linalg.inv(A)
np.linalg.det(A)
np.linalg.norm(S,axis=0)
np.linalg.norm(S)
np.cross(S[0],S[1])
np.clip(w,-1,.5)
np.where(S>0,S,-1)
S[S>0]
np.flatnonzero(w>0)
np.nonzero(S>0)
np.count_nonzero(S>0,axis=0)
np.any(S>1,axis=1)
np.all(S>-1,axis=0)
np.cumsum(S,axis=1)
np.ptp(S,axis=1)
np.round(w,1)
np.isclose(w,0)
S@S.T
np.outer(w,iv)
np.einsum('ij,kj->ik',S,S)
np.kron(w,S)
np.linalg.eigvalsh(A+A.T)
S.reshape(3,2).T
np.array_split(w,2)
iv*2-1
iv//2
iv%2
(-iv)//2
(-iv)%3
iv**2
w**2
w**-1
2**iv
iv/2
iv==1
iv&1
np.exp(1j*w)
abs(np.exp(1j*w)*2)
np.angle(1j)
(w+1j*v).conj()
(w+1j*v)*(v+2j)
(w+1j*v)/(v+2j)
np.real(w*1j)
w.astype('float32')
w.astype('int16')
(w*1000).astype('int8') if False else 0
iv.astype('int8')
np.array([1,2,3])+w
np.array([1,2,3],dtype='float32')*w
!r=np.zeros(3,dtype=int); r[:]=w
!r=np.zeros((2,3)); r[1]+=w; r[:,0]=x
!r=np.zeros(3); np.add.at(r,iv,w)
!r=np.zeros(3); r[iv]+=w
!r=S.copy(); q=r[0]; q[1]=7; q+=1
!r=S.copy(); q=r.T.ravel(); q[0]=9
!r=S.copy(); q=r.reshape(-1); q[0]=9
!r=S.copy(); r[r>0]=0
!r=S.copy(); r[:, [0,2]]*=2
!r=S.copy(); r[np.ix_([0,1],[0,2])]+=1
!r=w.copy(); r.sort()
!r=w.copy(); r[::2],r[1]=1,x
!r=np.arange(3); r=r+x
!r=np.full(3,x); r[0]=1
!r=np.full(3,1); r[0]=x
!r=list(w); r.sort()
!r=max(w,key=lambda t:-t)
!r=[i for i,t in enumerate(w) if t>0]
!r=w.copy(); np.putmask(r,r>0,[1.,2.,3.])
!r=w.copy(); np.place(r,r>0,[1.,2.])
!r=S.copy(); np.fill_diagonal(r,x)
!r=np.zeros(5); r[1:4]=w; r[-1]=r[1]
!r=S.copy(); r[0],r[1]=r[1].copy(),r[0].copy()
!r=np.zeros((2,2),dtype=complex); r[0,0]=1j*x
!r=S[:, ::-1].copy(); r-=S
!r=np.empty_like(S); np.multiply(S,2,out=r)
!r=S.copy(); r/=2; r**=2
!a,b=S; r=a*b
!r=0@for t in w:@  r=r+abs(t)
!r=S.flat[3]
!r=S.item(1,2)
!r=S.tolist()
!r=np.vstack([S,w]).shape
!r=np.c_[S,[[1],[2]]]
!r=np.r_[w,0,v]
!r=np.split(S,[1],axis=1)
!r=S.max(axis=0)-S.min(axis=0)
!r=np.add.reduceat(w,[0,2])
!r=np.take(S,iv,axis=1)
!r=S[:,iv]
!r=S[[0,1],[iv[0],iv[1]]]
!r=np.repeat(w,[1,2,0])
!r=np.piecewise(w,[w<0,w>1],[-1,1,0])
!r=np.select([w<0,w>1],[w,2*w],5)
!r=np.choose(iv,[w,v,2*w])
!r=np.bincount(iv,weights=w,minlength=4)
!r=np.unravel_index(iv,(3,2))
!r=np.isin(iv,[0,2])
!r=np.setdiff1d([0,1,2,3],iv)
!r=np.unique(iv,return_counts=True)
!r=np.trapezoid(w,v)
!r=np.average(S,axis=1,weights=v)
!r=np.tril(A)+np.triu(A,1)
!r=np.block([[A,np.zeros((2,1))],[np.ones((1,3))]])
!r=np.roll(S,1,axis=1)
!r=np.diff(S,axis=1)
!r=np.delete(S,1,axis=1)
!r=np.insert(w,1,x)
!r=np.pad(S,((1,0),(0,1)))
!r=np.vander(w,3)
!r=np.polyval([1,2,3],w)
!r=np.tensordot(S,S,axes=([1],[1]))
!r=np.swapaxes(S,0,1).copy()
!r=np.apply_along_axis(lambda q:q.sum(),0,S)
!r=np.fromiter((t*2 for t in w),float)
!r=np.meshgrid(w,v)[1]
!r=np.linspace(w[0],w[1],5)
!r=np.broadcast_to(w,(2,3))+S
np.einsum('ii->i',A)
np.hstack((v,v))
np.vstack([v,v])
np.dstack((A,A))
np.column_stack((v,v))
np.row_stack((v,v))
np.stack([v,v],axis=1)
np.concatenate([v,v])
np.c_[v,v]
np.r_[v,v]
np.split(v,3)
np.array_split(v,2)
np.hsplit(A,2)
np.expand_dims(v,0)
np.squeeze(v[None])
np.atleast_2d(v)
np.moveaxis(A,0,1)
np.swapaxes(A,0,1)
np.transpose(A)
np.ravel(A)
np.reshape(A,-1)
np.zeros_like(A)
np.ones_like(v)
np.empty_like(v)
np.diag(v)
np.diagflat(v)
np.floor(v)
np.ceil(v)
np.trunc(v)
np.rint(v)
np.round(v,2)
np.mod(iv,2)
np.floor_divide(iv,2)
np.divmod(iv,2)
np.remainder(iv,2)
np.power(v,2)
np.float_power(v,2)
np.square(v)
np.sqrt(v)
np.cbrt(v)
np.abs(v)
np.absolute(v)
np.fabs(v)
np.reciprocal(v)
np.negative(v)
np.positive(v)
np.exp(1j*v)
np.cos(v)
np.sin(v)
np.logical_and(v>1,v<2)
np.logical_or.reduce([v>1,v<2])
np.logical_not(v>1)
np.any(v>1)
np.all(A>1,axis=0)
np.invert(v>1)
np.equal(iv,1)
np.not_equal(iv,1)
np.greater(v,1)
np.less_equal(v,1)
np.iscomplexobj(v)
np.isreal(v)
np.real(v)
np.conj(v)
np.isnan(v)
np.isfinite(v)
np.isinf(v)
np.shape(v)
np.size(v)
np.ndim(A)
np.copy(v)
np.asarray(v,dtype=float)
np.asfarray(v) if hasattr(np,'asfarray') else 0
np.ascontiguousarray(v)
np.array(v,ndmin=2)
np.linspace(0,x,3)
np.linspace(v[0],v[1],4,endpoint=False)
np.arange(3)*x
np.geomspace(1,8,4)
np.nditer(v)
list(np.ndenumerate(v))
list(np.ndindex(2,2))
np.put(v.copy(),[0],[5])
np.place(v.copy(),v>1,0)
np.putmask(v.copy(),v>1,0)
np.copyto(v.copy(),v)
np.add.at(v.copy(),[0,0],1.)
np.subtract.at(v.copy(),[0,0],1.)
np.maximum.at(v.copy(),[0,0],1.)
np.add.reduceat(v,[0,1])
np.histogram(v)
np.errstate(all='ignore')
np.issubdtype(v.dtype,np.integer)
np.result_type(v,1)
np.can_cast(int,float)
np.finfo(float).eps
np.iinfo(int).max
np.array2string(np0.zeros(2))
np.isscalar(x)
np.min_scalar_type(3)
np.rollaxis(A,1)
np.vander([1.,2.])
np.nextafter(1.,2.)
np.heaviside(v,1)
np.signbit(v)
np.copysign(1.,v)
np.fmax(v,1)
np.fmod(iv,2)
np.dot(v,v)
np.matrix_transpose(A) if hasattr(np0,'matrix_transpose') else 0
np.linalg.cond(A)
np.linalg.cond(A,'fro')
np.linalg.svd(A,compute_uv=False)
np.linalg.pinv(A)
np.linalg.pinv(A,rcond=0.9)
np.linalg.norm(A,2)
np.linalg.matrix_rank(A)
np.linalg.lstsq(A,v[:2],rcond=None)
np.linalg.pinv(A)
np.linalg.eig(A)
np.linalg.eigvals(A)
np.linalg.cholesky(A)
np.linalg.svd(A)
np.linalg.qr(A)
A.sum(axis=1,keepdims=True)
A.mean()
A.std()
v.cumsum()
v.argsort()
v.max()
A.min(axis=0)
v.dot(v)
v.tolist()
v.item(0)
v.fill
v.repeat(2)
v.take([0])
v.clip(0,1)
v.round(2)
v.nonzero()
v.prod()
v.ptp() if hasattr(np0.ndarray,'ptp') else 0
A.trace()
A.diagonal()
A.swapaxes(0,1)
A.flat
A.ravel()
A.flatten()
A.resize
v.copy()
v.astype(int)
v.view()
v.conj()
v.any()
A.T@A
A[...,0]
A[:,None,:]
A[::-1]
A[[True,False]]
iv[iv>0]
v[iv]
A[iv,0]
v[iv[0]]
v.put
v.searchsorted
v.compress([True,False,True])
v.sort()
v.tobytes
v.itemset
abs(v)
round(x,3)
divmod(iv[0],2)
int(iv[0])
float(x)
max(v)
min(v)
sum(v)
sorted(v)
list(v)
tuple(A)
str(x)
f"{x}"
repr(v)
np.array([t for t in v])
np.fromstring('1 2',sep=' ')
np.char.add
np.unique(np.array([[1,2],[1,2]]),axis=0)
np.unwrap(v)
np.tan(v)
np.arcsin(v/3)
np.arccos(v/3)
np.arctan(v)
np.log(v)
np.exp(v)
np.sinc(v)
np.convolve(v,[1,1])
np.correlate(v,[1,1])
np.trim_zeros(iv)
np.ediff1d(v)
np.nanmin(v)
np.quantile(v,.5)
np.percentile(v,50)
np.array_equiv(v,v)
np.swapaxes(A,0,-1)
np.resize(v,5)
np.partition(v,1)
np.argpartition(v,1)
np.extract(v>1,v)
np.lib.stride_tricks.sliding_window_view(v,2)
np.linalg.tensorinv
'''.strip().split("\n")
T = [l.replace('@for', chr(10) + 'for').replace(':@', ':' + chr(10)) for l in T]
import warnings; warnings.simplefilter("ignore")
st = {}


def setup(c, np, real):
    R = lambda n, lo, hi: c[n] if real else c.real(n, lo, hi)
    x = R("x", .2, 1.8)
    v = [R("v%d" % i, .1 + .3 * i, .3 + .3 * i) for i in range(3)]
    w = [R("w%d" % i, -2, 2) for i in range(3)]
    A = [[R("a%d%d" % (i, j), (.3, 1.5)[i == j], (.5, 2)[i == j]) for j in range(2)] for i in range(2)]
    S = [[R("s%d%d" % (i, j), -2, 2) for j in range(3)] for i in range(2)]
    iv = [int(c["i%d" % i]) if real else c.integer("i%d" % i, 0, 2) for i in range(3)]
    f = (lambda a: np.array(a, dtype=float)) if real else c.farray
    return dict(np=np, np0=np0, x=x, v=f(v), w=f(w), A=f(A), S=f(S), A3=f([[1., 2, x]]),
                iv=np.array(iv) if real else c.array(iv))


def num(env, r):
    if isinstance(r, (tuple, list)) or type(r).__name__ in ("UniqueInverseResult",):
        return [num(env, q) for q in r]
    if isinstance(r, poly.SBool):
        return bool(env.form(r))
    if type(r).__name__ in ("flatiter", "zip", "enumerate"):
        return None
    if isinstance(r, np0.ndarray) and plain(r).dtype == object:
        p = plain(r)
        return np0.array([num(env, q) for q in p.reshape(-1)]).reshape(p.shape)
    if isinstance(r, (poly.Num, poly.Cx)):
        return env(r)
    return r


def same(a, b):
    if isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if b is None or callable(b) or isinstance(b, (str, bytes)) or callable(a):
        return True
    try:
        a, b = np0.asarray(a), np0.asarray(b)
        return a.shape == b.shape and (a.size == 0 or bool(np0.allclose(a.astype(complex), b.astype(complex), 1e-7, 1e-7)))
    except (TypeError, ValueError):
        return True
    except poly.Unsupported:
        return False


def main():
    bad = 0
    for e in T:
        res = {}

        def body():
            c = C.SymCtx(ex, "quick")
            body.r = None
            env = setup(c, c.np, False)
            try:
                body.r = eval(e, env) if not e.startswith("!") else (exec(e[1:], env), env["r"])[1]
            except poly.Abort:
                raise
            except BaseException as ee:
                body.r = ee

        def on(res):
            global_bad = None
            if isinstance(body.r, BaseException):
                st.setdefault(e, "%s: %s" % (type(body.r).__name__, str(body.r)[:100]))
                return
            w = ex.witness(ex.pc + ex.assumed, tries=100)
            if w is None:
                return
            env = solver.Env(w)
            real = setup({k: v for k, v in w.items()}, np0, True)
            try:
                q = eval(e, real) if not e.startswith("!") else (exec(e[1:], real), real["r"])[1]
            except Exception as ee:
                st[e] = "numpy itself raises %r" % ee
                return
            try:
                s = num(env, body.r)
            except Exception as ee:
                s = repr(ee)
            st[e] = "ok" if same(s, q) else "DIFFERS at %s: %s against %s" % (w, s, q)
            if st[e] != "ok":
                bads.append(e)
        bads = []
        ex.max_paths = ex.paths + 12
        ex.run(body, on)
        if bads:
            st[e] = st[e] if st[e] != "ok" else "DIFFERS on a path"
    for e in T:
        if st.get(e) != "ok":
            print("%-50s %s" % (e, st.get(e)))
    print(sum(v == "ok" for v in st.values()), "expressions agree with numpy")


main()
