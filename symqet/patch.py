"""Rebinding of the numerical libraries inside the modules under test.

Nothing in /repo is edited: the functions that run are the ones imported from
/repo/qetpy; only what the names `np`, `fft`, `pi`, ... resolve to in those
modules' globals is replaced by the symbolic counterparts."""
import builtins
import math
import sys
import types

import numpy as np
import scipy
import scipy.fftpack
import scipy.fft
import scipy.signal
import scipy.optimize
import scipy.stats
import scipy.integrate
import scipy.interpolate
import scipy.linalg
import scipy.ndimage
import scipy.constants

from . import engine as E
from . import npsym as N
from . import poly as P
from .poly import Rat, Poly
from .sym import Sym, SymBool, lift, cmp, _sb, ufun
from .engine import Unsupported


def PI():
    return Sym(Rat(Poly.var(E.eng().pi().id)))


def s_sqrt_int(x, *a, **k):
    """square roots of whole numbers that are no squares stay exact"""
    if not a and not k and isinstance(x, (int, np.integer)) and not isinstance(x, bool) and 1 < x < 10 ** 6:
        r = math.isqrt(int(x))
        if r * r != x:
            return lift(int(x)).sqrt()
    return np.sqrt(x, *a, **k)


NP_OVER = {
    'sqrt': s_sqrt_int,
    'zeros': N.s_zeros, 'ones': N.s_ones, 'empty': N.s_empty, 'full': N.s_full,
    'array': N.s_array, 'asarray': N.s_asarray, 'asanyarray': N.s_asarray,
    'ascontiguousarray': N.s_asarray, 'asfarray': N.s_asarray,
    'arange': N.s_arange, 'linspace': N.s_linspace, 'isscalar': N.s_isscalar,
}


class Repl:
    """real object -> symbolic replacement, by identity"""

    def __init__(self):
        self.map = {}
        self.keep = []

    def set(self, real, new):
        self.map[id(real)] = new
        self.keep.append(real)

    def get(self, real):
        return self.map.get(id(real))


REPL = Repl()


def _dispatching(real, sym):
    def f(*a, **k):
        if any(N._deep_sym(x) for x in a) or any(N._deep_sym(x) for x in k.values()):
            return sym(*a, **k)
        return real(*a, **k)
    f.__name__ = getattr(real, '__name__', 'f')
    f.__wrapped__ = real
    f.__module__ = 'symqet.dispatch'
    return f


class Proxy(types.ModuleType):
    def __init__(self, real, over=None):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over or {}
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        o = self._over
        if name in o:
            return o[name]
        v = getattr(self._real, name)
        if name == 'pi' and isinstance(v, float):
            return PI()
        if callable(v) or isinstance(v, types.ModuleType):
            r = REPL.get(v)
            if r is not None:
                return r
            if isinstance(v, types.ModuleType) and v.__name__.split('.')[0] in ('numpy', 'scipy'):
                return proxy_for(v)
            try:
                t = N.TABLE.get(v)
            except TypeError:
                t = None
            if t is not None:
                return _dispatching(v, t)
            if isinstance(v, types.FunctionType) and \
                    (v.__module__ or '').startswith('scipy'):
                return guarded(v)
        return v


def guarded(v):
    """compiled/unsupported library functions refuse symbolic data instead of
    silently mangling it"""
    def f(*a, **k):
        if any(N._deep_sym(x) for x in a) or any(N._deep_sym(x) for x in k.values()):
            raise Unsupported('library function %s.%s' % (v.__module__, v.__name__))
        return v(*a, **k)
    f.__name__ = v.__name__
    return f


_proxies = {}


def proxy_for(mod):
    p = _proxies.get(mod.__name__)
    if p is None:
        over = {}
        if mod is np:
            over = NP_OVER
        p = Proxy(mod, over)
        _proxies[mod.__name__] = p
    return p


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Sym) and x.im is None)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FloatMeta):
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            if x.im is not None:
                raise TypeError("can't convert complex to float")
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return lift(x.item())
        return builtins.float(x)


import numbers
_NUMERIC = (numbers.Number, numbers.Real, numbers.Complex, np.number, np.floating, np.float64,
            np.inexact, builtins.float, builtins.complex)


def sym_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if q is SymFloat or q in _NUMERIC:
                if q in (np.complex128, builtins.complex):
                    if x.im is not None:
                        return True
                    continue
                if q in (builtins.float, np.floating, np.float64, numbers.Real) and x.im is not None:
                    continue
                return True
            if builtins.isinstance(x, q):
                return True
        return False
    return builtins.isinstance(x, t)


def _math_over():
    def un(name):
        real = getattr(math, name)

        def f(x, *a):
            if isinstance(x, Sym):
                if a:
                    return x.log() / math.log(a[0]) if name == 'log' and len(a) == 1 else getattr(x, name)(*a)
                if name == 'floor':
                    return x.__floor__()
                if name == 'ceil':
                    return x.__ceil__()
                if name in ('fabs',):
                    return abs(x)
                if name == 'isnan' or name == 'isinf':
                    return False
                if name == 'isfinite':
                    return True
                if name == 'trunc':
                    return int(x)
                return getattr(x, name)()
            return real(x, *a)
        return f
    d = {n: un(n) for n in ('sqrt', 'exp', 'cos', 'sin', 'tan', 'log', 'log10', 'floor', 'ceil',
                            'fabs', 'isnan', 'isinf', 'isfinite', 'trunc', 'tanh', 'expm1', 'log1p')}
    d['pow'] = lambda a, b: lift(a) ** b
    d['isclose'] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: N.s_isclose(a, b, rel_tol, abs_tol)
    d['fsum'] = lambda xs: N._sum(list(xs))
    return d


def s_savgol(*a, **k):
    raise Unsupported('savgol_filter')


def s_skew(a, axis=0, bias=True, nan_policy='propagate', **k):
    def f(xs):
        n = len(xs)
        m = N._sum(xs) / n
        m2 = N._sum([(lift(x) - m) ** 2 for x in xs]) / n
        m3 = N._sum([(lift(x) - m) ** 3 for x in xs]) / n
        if bool(_sb(cmp(m2, 0, 'eq'))):
            return float('nan')
        return m3 / (m2 * m2.sqrt())
    return N.reduce_axis(f, a, axis)


def s_bool_count(a):
    return a


def s_curve_fit_linear(f, xdata, ydata, p0=None, sigma=None, absolute_sigma=False, **k):
    """contract of scipy.optimize.curve_fit for a model that is linear in its
    parameters: the exact (weighted) least squares estimate and covariance"""
    x = N.mk(xdata)
    y = N.mk(ydata)
    import inspect
    for v in list(x.ravel()) + list(y.ravel()):
        if not isinstance(v, N.Sym) and not np.isfinite(v):
            raise ValueError('array must not contain infs or NaNs')
    if p0 is not None:
        npar = len(np.atleast_1d(p0)) if not N.has_sym(p0) else len(N.mk(p0).ravel())
    else:
        npar = len(inspect.signature(f).parameters) - 1
    zero = [lift(0)] * npar
    off = N.mk(f(x, *zero))
    if off.ndim == 0:
        off = off + x * 0
    cols = []
    for j in range(npar):
        e = list(zero)
        e[j] = lift(1)
        c = N.mk(f(x, *e)) - off
        if c.ndim == 0 or c.shape != x.shape:
            c = c + x * 0
        cols.append(c)
    # linearity check: second differences vanish
    two = [lift(2)] * npar
    lin = off
    for c in cols:
        lin = lin + c * 2
    d = N.mk(f(x, *two)) - lin
    for v in d.ravel():
        if not lift(v).is_zero():
            raise Unsupported('curve_fit of a non-linear model')
    A = N.mk([list(c) for c in cols]).T
    r = y - off
    n = len(y)
    if sigma is not None:
        s = N.mk(sigma)
        if s.ndim != 1:
            raise Unsupported('curve_fit covariance sigma')
        A = A / s[:, np.newaxis]
        r = r / s
    H = N.s_dot(A.T, A)
    C = N.s_inv(H)
    popt = N.s_dot(C, N.s_dot(A.T, r))
    if not absolute_sigma:
        res = r - N.s_dot(A, popt)
        if n > npar:
            C = C * (N.s_sum(res * res) / (n - npar))
        else:
            C = C * float('inf')
    return popt, C


class SymMatrix:
    pass


def install_defaults():
    REPL.map.clear()
    REPL.keep.clear()
    R = REPL.set
    for f, s in ((scipy.fftpack.fft, N.s_fft), (scipy.fftpack.ifft, N.s_ifft),
                 (scipy.fftpack.fftfreq, N.s_fftfreq), (scipy.fft.fft, N.s_fft),
                 (scipy.fft.ifft, N.s_ifft), (scipy.fft.rfft, N.s_rfft),
                 (scipy.fft.irfft, N.s_irfft), (scipy.fft.fftfreq, N.s_fftfreq),
                 (scipy.fft.rfftfreq, N.s_rfftfreq),
                 (np.fft.fftfreq, N.s_fftfreq), (np.fft.rfftfreq, N.s_rfftfreq),
                 (scipy.stats.skew, s_skew), (scipy.optimize.curve_fit, s_curve_fit_linear),
                 (scipy.linalg.inv, N.s_inv), (scipy.linalg.solve, _dispatching(scipy.linalg.solve, lambda a, b: N.s_solve(a, b))),
                 (scipy.signal.correlate, _dispatching(scipy.signal.correlate, lambda a, b, mode='full': N.s_correlate(a, b, mode))), (scipy.linalg.pinv, N.s_pinv),
                 (scipy.integrate.trapezoid, N.s_trapz),
                 (scipy.integrate.cumulative_trapezoid, N.s_cumtrapz),
                 (scipy.signal.csd, _dispatching(scipy.signal.csd, N.s_csd)),
                 (scipy.signal.fftconvolve, _dispatching(scipy.signal.fftconvolve, N.s_fftconvolve)),
                 (scipy.ndimage.shift, _dispatching(scipy.ndimage.shift, N.s_ndshift)),
                 (scipy.interpolate.interp1d, _dispatching(scipy.interpolate.interp1d, N.SymInterp1d)),
                 (scipy.signal.convolve, lambda a, b, mode='full', **k: N.s_convolve(a, b, mode)),
                 ):
        R(f, s)
    # the same function object may be exported under numpy.fft and scipy
    R(math, Proxy(math, _math_over()))


def patch_modules(mods):
    for m in mods:
        g = m.__dict__
        for name, v in list(g.items()):
            if name.startswith('__'):
                continue
            new = None
            if isinstance(v, types.ModuleType):
                top = v.__name__.split('.')[0]
                if REPL.get(v) is not None:
                    new = REPL.get(v)
                elif top in ('numpy', 'scipy'):
                    new = proxy_for(v)
            elif isinstance(v, float) and v == math.pi:
                new = PI()
            elif callable(v):
                new = REPL.get(v)
                if new is None:
                    md = getattr(v, '__module__', '') or ''
                    if md.startswith(('numpy', 'scipy')) or v in (math.sqrt, math.exp, math.log, math.floor,
                                                                 math.ceil, math.cos, math.sin):
                        if getattr(v, '__name__', None) in NP_OVER and md.startswith('numpy') and \
                                getattr(np, v.__name__, None) is v:
                            new = NP_OVER[v.__name__]
                        else:
                            try:
                                t = N.TABLE.get(v)
                            except TypeError:
                                t = None
                            if t is not None:
                                new = _dispatching(v, t)
                            elif isinstance(v, types.FunctionType) and md.startswith('scipy'):
                                new = guarded(v)
                            elif v.__module__ == 'math':
                                new = _math_over()[v.__name__]
            if new is not None:
                g[name] = new
        g['float'] = SymFloat
        g['isinstance'] = sym_isinstance


def patch_concrete(mods, pairs):
    """replay mode: only the explicitly stubbed functions are rebound"""
    for m in mods:
        g = m.__dict__
        for name, v in list(g.items()):
            for real, new in pairs:
                if v is real:
                    g[name] = new


def qetpy_modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == 'qetpy' or n.startswith('qetpy.')) and isinstance(m, types.ModuleType)]
