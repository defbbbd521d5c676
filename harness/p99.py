"""encoder self-test (no property): numpy and scipy functions on symbolic arrays against the real ones.
run.py P99; unsupported functions are listed as undecided"""
from harness.ref import *
import numpy
BOUNDS='';ASSUMPTIONS=[]
EX='''np.abs(x)|np.add(x,y)|np.append(x,y)|np.append(A,A,axis=0)|np.argwhere(x>0)|np.asarray(x,dtype=float)|np.ascontiguousarray(x)|np.atleast_2d(x)|np.broadcast_arrays(x,A[:,:1])[0]|np.broadcast_to(x,(2,4))|np.column_stack((x,y))|np.compress([True,False,True,True],x)|np.concatenate((x,y))|np.conj(x)|np.cross(A[0],A[1])|np.cumprod(x)|np.cumsum(x)|np.cumsum(A,axis=1)|np.delete(x,1)|np.diagonal(A)|np.diff(x)|np.diff(A,axis=0)|np.divide(x,y)|np.dstack((x,y))|np.expand_dims(x,0)|np.eye(4)*x|np.flip(x)|np.fliplr(A)|np.flipud(A)|np.hstack((x,y))|np.insert(x,1,3.0)|np.insert(x,[0,2],y[:2])|np.invert(x>0)|np.kron(x,y)|np.meshgrid(x,y)[0]|np.moveaxis(A,0,1)|np.multiply(x,y)|np.nanmedian(x)|np.nanstd(x)|np.nanvar(x)|np.negative(x)|np.pad(x,1)|np.pad(x,(1,2),mode='constant',constant_values=2.0)|np.pad(x,(1,2),mode='edge')|np.partition(x,1)[1]|np.ravel(A)|np.repeat(x,2)|np.reshape(x,(2,2))|np.roll(x,1)|np.roll(A,1,axis=-1)|np.rot90(A)|np.size(x)|np.split(x,2)[0]|np.squeeze(A)|np.stack((x,y))|np.stack([x,y],axis=-1)|np.subtract(x,y)|np.swapaxes(A,0,1)|np.take(x,[0,2])|np.take_along_axis(A,np.array([[0],[1]]),axis=1)|np.tensordot(x,y,axes=1)|np.tensordot(A,A,axes=([1],[1]))|np.tile(x,2)|np.trace(A[:,:2])|np.transpose(A)|np.trapz(x)|np.trapz(x,dx=0.5)|np.trapz(x,x=y)|np.tri(4)*x|np.tril(np.outer(x,y))|np.triu(np.outer(x,y))|np.vander(x)|np.vectorize(lambda v: v*v)(x)|np.vstack((x,y))|np.exp2(x)|np.log2(p)|np.cbrt(p)|np.mod(x,1.0)|np.floor_divide(x,1.0)|np.einsum('i,i->',x,y)|np.einsum('ij,ij->i',A,A)|np.einsum('ij,k->ijk',A,x)|np.outer(x,y)|np.inner(x,y)|np.vdot(x,y)|np.dot(A.T,A)|A.T@A|x@y|np.matmul(A.T,A)|np.linalg.inv(B)|np.linalg.solve(B,x[:2])|np.linalg.det(B)|np.linalg.norm(x)|np.linalg.norm(A,axis=1)|np.linalg.lstsq(A.T,A[0],rcond=None)[0]|np.linalg.pinv(B)|np.polyfit(x,y,1)|np.polyval(x,2.0)|np.average(x,weights=p)|np.average(A,axis=0)|np.mean(A,axis=(0,1))|A.mean(axis=0,keepdims=True)|np.mean(x,where=np.array([True,True,False,True]))|np.sum(x,where=x>0)|np.sum(A,axis=0,keepdims=True)|np.std(x,ddof=1)|np.var(A,axis=0,ddof=1)|np.median(x)|np.median(A,axis=0)|np.percentile(x,50)|np.quantile(x,0.25)|np.max(x)|np.amax(A,axis=1)|np.ptp(x)|np.minimum(x,y)|np.fmax(x,y)|np.clip(x,-1,1)|np.clip(x,None,1)|x.clip(min=0)|np.where(x>0,x,y)|np.select([x>0,x<=0],[x,y])|np.piecewise(x,[x>0,x<=0],[lambda v:v,lambda v:-v])|np.argsort(x)|np.sort(x)|x.argsort()|np.argmax(x)|np.argmin(A,axis=1)|np.nonzero(x>0)[0]|np.flatnonzero(x>0)|np.count_nonzero(x>0)|np.any(x>0)|np.all(x>0)|np.isclose(x,y)|np.allclose(x,x)|np.array_equal(x,x)|np.sign(x)|np.heaviside(x,0.5)|np.hypot(x,y)|np.square(x)|np.power(x,2)|np.float_power(x,2)|np.reciprocal(p)|np.sqrt(p)|np.exp(x)|np.log(p)|np.log10(p)|np.interp(0.5,[0,1,2,3],x)|np.interp([0.5,1.5],[0,1,2,3],x)|np.convolve(x,y)|np.convolve(x,y,mode='same')|np.convolve(x,y,mode='valid')|np.correlate(x,y)|np.correlate(x,y,'full')|np.fft.fft(x)|np.fft.ifft(x).real|np.fft.rfft(x)|np.fft.irfft(np.fft.rfft(x),4)|np.fft.fftshift(x)|np.fft.ifftshift(x)|np.fft.fft(A,axis=0)|np.cov(x)|np.cov(A)|np.corrcoef(A)|np.gradient(x)|np.digitize(x,[0,1])|np.searchsorted([0,1],x)|np.unique(x)|np.nan_to_num(x)|np.isnan(x)|np.isfinite(x)|np.real(x)|np.imag(x)|np.angle(x+1j*y)|np.abs(x+1j*y)|np.conjugate(x+1j*y)|(x+1j*y).conj()|np.zeros_like(x)|np.full(4,x[0])|np.full_like(x,2.0)|np.ones_like(x)|np.empty_like(x)*0|np.array([v for v in x])|np.array(list(x),dtype=float)|np.fromiter((v for v in x),dtype=float)|np.array([x,y])|np.add.reduce(x)|np.add.accumulate(x)|np.multiply.reduce(x)|np.multiply.outer(x,y)|np.subtract.outer(x,y)|np.maximum.reduce(x)|np.maximum.accumulate(x)|np.logical_and(x>0,y>0)|np.logical_or.reduce([x>0,y>0])|np.apply_along_axis(np.sum,1,A)|np.add.at(z:=np.zeros(2)+0*x[:2],[0,1,0],x[:3])|sum(x)|max(x)|min(x)|sorted(x)|abs(x)|x.max()|x.sum()|x.mean()|x.std()|x.var()|x.cumsum()|x.dot(y)|x.reshape(2,-1)|x.flatten()|x.ravel()|x.copy()|x.astype(float)|x.astype(complex)|x.tolist()|x.item(0)|x[::-1]|x[x>0].sum()|x[np.array([0,2])]|x[[1,0]]|x[np.newaxis,:]|x[:,None]*y|x[...,0]|A[0,...]|A[:, [0,2]]|A[np.ix_([0,1],[0,2])]|x.take([0,1])|x.repeat(2)|x.squeeze()|x.T|x.real|x.imag|x.prod()|x.any()|x.ptp() if hasattr(x,'ptp') else 0|x.round(2)|np.round(x,1)|np.floor(x)|np.ceil(x)|np.trunc(x)|np.rint(x)|x//1|x%1|divmod(x[0],1)[1]|float(x[0]>0)|math.sqrt(p[0])|math.exp(x[0])|math.log(p[0])|math.fabs(x[0])|math.hypot(x[0],x[1])|math.pow(x[0],2)|math.fsum(x)|math.prod(x)|math.sumprod(x,y)|math.floor(x[0])|math.isclose(x[0],x[1])|math.isnan(x[0])|math.isfinite(x[0])|math.copysign(1.0,x[0])|math.atan2(p[0],p[1])|cmath.exp(1j*x[0])|pow(x[0],2)|complex(x[0],x[1])|np.complex128(x[0])|np.float64(x[0])|float(x[0])|bool(x[0]>0)|np.array(3.0)*x|statistics.mean(x)|functools.reduce(lambda a,b:a+b,x)|list(itertools.accumulate(x))|np.nanmean(x)|np.nansum(x)|np.nanmax(x)|np.nanargmin(x)|np.ma.masked_array(x,mask=[0,1,0,0]).mean()|np.lexsort((x,))|np.trim_zeros(x)|np.block([[x],[y]])|np.array_split(x,3)[0]|np.r_[x,y]|np.c_[x,y]|np.s_[0]|np.ndenumerate(x)|np.nditer(x)|np.iterable(x)|np.may_share_memory(x,y)|np.result_type(x)|np.issubdtype(x.dtype,np.floating)|np.shape(x)|np.ndim(x)|x.shape|x.ndim|x.size|len(x)|x.dtype == float|np.lib.stride_tricks.sliding_window_view(x,2)|scipy.linalg.inv(B)|scipy.linalg.solve(B,x[:2])|scipy.integrate.trapezoid(x)|scipy.integrate.simpson(x)|scipy.fft.fft(x)|scipy.fft.rfft(x)|scipy.signal.fftconvolve(x,y)|scipy.signal.convolve(x,y)|scipy.signal.correlate(x,y)|scipy.ndimage.shift(x,0.5,order=1)|scipy.stats.skew(x)|scipy.special.expit(x)|scipy.interpolate.interp1d([0,1,2,3],x)(0.5)|scipy.fft.fftfreq(4)*x|np.fft.rfftfreq(4)*x[:3]|np.fft.fftfreq(4)*x|np.linspace(0,1,4)*x|np.linspace(x[0],x[1],3)|np.arange(4)*x|np.logspace(0,1,4)*x|np.geomspace(1,2,4)*x|np.linalg.multi_dot([A.T,A,x[:3]])|np.linalg.eigvalsh(B)|np.linalg.cholesky(B)|np.linalg.matrix_power(B,2)|np.diag(x)|np.diag(B)|np.diagflat(x)|np.identity(4)*x|np.fill_diagonal(B,1.0)|np.copyto(B,1.0)|np.put(x,[0],[1.0])|np.place(x,x>0,[1.0])|np.ediff1d(x)|np.bincount([0,1,1,0],weights=x)|np.histogram(x,bins=2)[0]|np.isin(x,[1.0])|np.setdiff1d([1,2],[1])|np.isrealobj(x)|np.iscomplexobj(x)|np.isscalar(x[0])|np.atleast_1d(x)|np.spacing(1.0)|np.finfo(float).eps'''.split('|')
# ('|' inside expressions is not used)
import math, cmath, statistics, functools, itertools, scipy, scipy.linalg, scipy.integrate, scipy.fft, scipy.signal, scipy.ndimage, scipy.stats, scipy.special, scipy.interpolate


def h(c, ex):
    np = c.np
    x = c.reals('x', 4, lo=-3, hi=3)
    y = c.reals('y', 4, lo=-3, hi=3)
    p = c.reals('p', 4, lo=F(1, 4), hi=3)
    A = c.reals('A', (2, 3), lo=-3, hi=3)
    B = c.np.array([[4 + p[0], p[1]], [p[1], 5 + p[2]]])
    env = dict(np=np, x=x, y=y, p=p, A=A, B=B, math=math, cmath=cmath, statistics=statistics, functools=functools,
               itertools=itertools, scipy=scipy)
    if c.mode == 'sym':
        from symqet import patch
        for k in ('scipy', 'math', 'cmath'):
            try:
                env[k] = patch.proxy_for(env[k]) if k == 'scipy' else patch.Proxy(math, patch._math_over())
            except Exception:
                pass
    r = eval(ex, env)
    if r is None or isinstance(r, (tuple, bool, type)):
        return
    try:
        r + 0
    except TypeError:
        return
    c.eq('v', r, r)


def jobs(tier):
    return [(e, h, dict(ex=e)) for e in EX]
