"""numpy semantics over symbolic numbers.

SymArray is an ndarray subclass of dtype object whose elements are Sym values
(or plain python numbers); everything numpy would hand to compiled float code
is intercepted and re-expressed over the symbolic elements."""
import builtins
import itertools
import math
import types
from fractions import Fraction

import numpy as np
import scipy

from . import engine as E
from .engine import Unsupported, z3
from . import poly as P
from .poly import Rat, Poly
from .sym import (Sym, SymBool, SymBit, lift, cmp, is_inf, is_nan, nonfinite, snap, argext,
                  sym_exp, cis, NUM, ufun, _sb)


class SymArray(np.ndarray):
    """object ndarray standing for a float64/complex128 array"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return array_function(func, args, kw)

    def __array_finalize__(self, obj):
        pass

    def __getitem__(self, k):
        k = fix_index(k)
        r = np.ndarray.__getitem__(self.view(np.ndarray), k)
        return wrap(r)

    def __setitem__(self, k, v):
        k = fix_index(k)
        np.ndarray.__setitem__(self.view(np.ndarray), k, unwrap(v))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    @property
    def real(self):
        return emap(lambda x: x.real if isinstance(x, Sym) else np.real(x), self)

    @real.setter
    def real(self, v):
        v = np.broadcast_to(unwrap(v), self.shape)
        b = self.view(np.ndarray)
        for i in np.ndindex(self.shape):
            b[i] = lift(v[i]).real + lift(b[i]).imag * 1j

    @property
    def imag(self):
        return emap(lambda x: x.imag if isinstance(x, Sym) else np.imag(x), self)

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(unwrap(v), self.shape)
        b = self.view(np.ndarray)
        for i in np.ndindex(self.shape):
            b[i] = lift(b[i]).real + lift(v[i]).real * 1j

    @property
    def T(self):
        return wrap(self.view(np.ndarray).T)

    def conj(self):
        return emap(lambda x: x.conjugate(), self)
    conjugate = conj

    def astype(self, t, *a, **k):
        return cast(self, t)

    def mean(self, *a, **k):
        return s_mean(self, *a, **k)

    def std(self, *a, **k):
        return s_std(self, *a, **k)

    def var(self, *a, **k):
        return s_var(self, *a, **k)

    def sum(self, *a, **k):
        return s_sum(self, *a, **k)

    def prod(self, *a, **k):
        return s_prod(self, *a, **k)

    def cumsum(self, axis=None, *a, **k):
        return wrap(np.cumsum(unwrap(self), axis=axis))

    def min(self, *a, **k):
        return s_min(self, *a, **k)

    def max(self, *a, **k):
        return s_max(self, *a, **k)

    def argmin(self, *a, **k):
        return s_argmin(self, *a, **k)

    def argmax(self, *a, **k):
        return s_argmax(self, *a, **k)

    def ptp(self, *a, **k):
        return s_ptp(self, *a, **k)

    def dot(self, o, *a):
        return s_dot(self, o)

    def sort(self, axis=-1, *a, **k):
        r = s_sort(self, axis=axis)
        self.view(np.ndarray)[...] = unwrap(r)

    def argsort(self, axis=-1, *a, **k):
        return s_argsort(self, axis=axis)

    def any(self, *a, **k):
        return wrap(np.any(tobool(self), *a, **k))

    def all(self, *a, **k):
        return wrap(np.all(tobool(self), *a, **k))

    def nonzero(self):
        return np.nonzero(tobool(self))

    def trace(self, *a, **k):
        return wrap(np.trace(unwrap(self), *a, **k))

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def __copy__(self):
        return wrap(self.view(np.ndarray).copy())

    def __deepcopy__(self, memo):
        return wrap(self.view(np.ndarray).copy())

    def copy(self, *a, **k):
        return wrap(self.view(np.ndarray).copy())

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1).view(np.ndarray)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __complex__(self):
        return complex(self.item())

    def clip(self, *a, **k):
        return s_clip(self, *a, **k)

    def round(self, decimals=0, out=None):
        return s_round(self, decimals, out)

    def __repr__(self):
        return 'SymArray' + repr(self.shape)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


INTDT = np.dtype('int64', metadata={'symbolic': True})
INTPRES = {np.add, np.subtract, np.multiply, np.negative, np.positive, np.absolute, np.maximum, np.minimum,
           np.fmax, np.fmin, np.sign, np.square, np.floor_divide, np.remainder}


def is_intpoly(x):
    """provably an integer: a polynomial with integer coefficients in integer variables"""
    if isinstance(x, SymBool):
        return True
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return True
    if not isinstance(x, Sym):
        return False
    if x.im is not None or x.re.d:
        return False
    if any(Fraction(v).denominator != 1 for v in x.re.n.t.values()):
        return False
    e = E.eng()
    return all(getattr(e.vars[i], 'dom', None) and builtins.all(int(d) == d for d in e.vars[i].dom) for i in x.re.n.vars())


def to_int(x):
    if is_intpoly(x):
        return x
    if isinstance(x, (complex, np.complexfloating)) or (isinstance(x, Sym) and x.im is not None):
        raise TypeError("can't convert complex to int")
    return int(x)


def int_input(x):
    if isinstance(x, IntSymArray) or is_intpoly(x):
        return True
    if isinstance(x, SymArray):
        return False
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'biu' or (x.dtype == object and builtins.all(is_intpoly(v) for v in x.ravel().tolist()))
    return isinstance(x, (list, tuple)) and builtins.all(int_input(v) for v in x)


class IntSymArray(SymArray):
    """object ndarray standing for an int64 array: what is stored is truncated,
    an in-place operation with a float result is refused, *_like arrays are integers too"""
    dtype = property(lambda self: INTDT)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self.view(np.ndarray), fix_index(k))
        return r.view(IntSymArray) if isinstance(r, np.ndarray) and r.ndim else wrap(r)

    def __setitem__(self, k, v):
        v = unwrap(v)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        if isinstance(v, (list, tuple, np.ndarray)):
            b = _objarr(v)
            v = np.empty(b.shape, dtype=object)
            for i in np.ndindex(b.shape):
                v[i] = to_int(b[i])
        else:
            v = to_int(v)
        np.ndarray.__setitem__(self.view(np.ndarray), fix_index(k), v)

    def astype(self, t, *a, **k):
        if _kind(t) in 'iu':
            return self.copy()
        return cast(self, t)

    @property
    def T(self):
        return self.view(np.ndarray).T.view(IntSymArray)

    def copy(self, *a, **k):
        return self.view(np.ndarray).copy().view(IntSymArray)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()


def _symint(dtype):
    try:
        return (np.dtype(dtype).metadata or {}).get('symbolic', False) if dtype is not None else False
    except TypeError:
        return False


def mk(x):
    """anything array-like containing Syms -> SymArray"""
    if isinstance(x, SymArray):
        return x
    a = _objarr(x)
    return a.view(SymArray)


def _objarr(x):
    if isinstance(x, np.ndarray):
        return np.asarray(x.view(np.ndarray), dtype=object)
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    x = _strip(x)
    if isinstance(x, np.ndarray):
        return x.astype(object)
    return np.array(x, dtype=object)


def _strip(x):
    """nested lists with SymArrays inside -> nested lists of elements"""
    if isinstance(x, (list, tuple)):
        return [_strip(y) for y in x]
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray).tolist() if isinstance(x, SymArray) or x.dtype == object else x.tolist()
    if isinstance(x, (types.GeneratorType, range, map, filter, zip)):
        return [_strip(y) for y in x]
    return x


def has_sym(x):
    if isinstance(x, (Sym, SymArray, SymBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def wrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0:
            return r.item()
        return r.view(SymArray)
    if isinstance(r, tuple) and not hasattr(r, '_fields'):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def unwrap(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, list):
        return [unwrap(y) if isinstance(y, (SymArray, list, tuple, SymBool)) else y for y in x]
    if isinstance(x, tuple) and not hasattr(x, '_fields'):
        return tuple(unwrap(y) if isinstance(y, (SymArray, list, tuple, SymBool)) else y for y in x)
    return x


def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix_index(x) for x in k)
    if isinstance(k, SymBit):
        return int(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymArray):
        b = k.view(np.ndarray)
        flat = b.ravel().tolist()
        if all(isinstance(x, (bool, np.bool_, SymBool)) and not isinstance(x, SymBit) for x in flat):
            return np.array([bool(x) for x in flat], dtype=bool).reshape(b.shape)
        return np.array([_idx(x) for x in flat], dtype=int).reshape(b.shape)
    if isinstance(k, np.ndarray) and k.dtype == object:
        return fix_index(k.view(SymArray))
    if isinstance(k, list) and has_sym(k):
        return fix_index(mk(k))
    if isinstance(k, Sym):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis '
                         '(`None`) and integer or boolean arrays are valid indices')
    return k


def _idx(x):
    if isinstance(x, Sym):
        c = x.const_value() if x.is_const() else None
        if isinstance(c, int):
            return c
        raise Unsupported('symbolic index')
    return int(x)


def tobool(a):
    b = unwrap(mk(a))
    out = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(b.shape):
        x = b[i]
        out[i] = bool(x)
    return out


def cast_scalar(x, t):
    if t in (float, complex, np.float64, np.complex128, object, 'float', 'complex',
             'float64', 'complex128', 'double'):
        return x
    t = np.dtype(t)
    if t.kind in 'fc':
        return x
    if t.kind in 'iu':
        return int(x)
    if t.kind == 'b':
        return bool(x)
    return x


def cast(a, t):
    try:
        kind = np.dtype(t).kind
    except TypeError:
        kind = 'O'
    if kind == 'b':
        return tobool(a)
    if kind in 'iu':
        b = unwrap(a)
        if any(isinstance(x, SymBool) and not isinstance(x.f, bool) for x in np.ravel(b).tolist()):
            out = np.empty(b.shape, dtype=object)
            for i in np.ndindex(b.shape):
                x = b[i]
                out[i] = SymBit(x.f, x.ids) if isinstance(x, SymBool) and not isinstance(x.f, bool) \
                    else int(x)
            return out.view(SymArray)
        out = np.empty(b.shape, dtype=int)
        for i in np.ndindex(b.shape):
            out[i] = int(b[i])
        return out
    return wrap(unwrap(a).copy())


def emap(f, *arrs):
    bs = np.broadcast_arrays(*[_objarr(a) for a in arrs])
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(*[b[i] for b in bs])
    return wrap(out)


# ------------------------------------------------------------------- ufuncs
def _py(x):
    if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 0:
        return x.item()
    return x


def _isnan(x):
    return is_nan(x) if not isinstance(x, Sym) else False


def _isinf(x):
    return is_inf(x) if not isinstance(x, Sym) else False


def _isfinite(x):
    return not (_isnan(x) or _isinf(x))


def _sign(x):
    x = lift(x)
    if bool(cmp(x, 0, 'gt')):
        return 1
    if bool(cmp(x, 0, 'lt')):
        return -1
    return 0


def _max2(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    return a if bool(cmp(a, b, 'ge')) else b


def _min2(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    return a if bool(cmp(a, b, 'le')) else b


def _arctan2(y, x):
    return ufun('arctan2', lift(y), lift(x))


def _hypot(a, b):
    return (lift(a) * a + lift(b) * b).sqrt()


def _un(name):
    def f(x):
        if isinstance(x, SymBool):
            x = bool(x)
        if not isinstance(x, Sym):
            if nonfinite(x):
                return getattr(np, name)(x)
            x = lift(x)
        return getattr(x, name)()
    return f


def _abs(x):
    return abs(x) if isinstance(x, Sym) else (abs(x) if nonfinite(x) else abs(lift(x)))


def _cmpf(op):
    return lambda a, b: bool(_sb(cmp(a, b, op)))


def _boolres(f):
    return lambda *a: bool(f(*a))


UF = {
    np.isnan: (_isnan, bool), np.isinf: (_isinf, bool), np.isfinite: (_isfinite, bool),
    np.sign: (_sign, None), np.maximum: (_max2, None), np.minimum: (_min2, None),
    np.fmax: (_max2, None), np.fmin: (_min2, None),
    np.arctan2: (_arctan2, None), np.hypot: (_hypot, None),
    np.absolute: (_abs, None), np.fabs: (_abs, None),
    np.sqrt: (_un('sqrt'), None), np.exp: (_un('exp'), None), np.log: (_un('log'), None),
    np.log10: (_un('log10'), None), np.cos: (_un('cos'), None), np.sin: (_un('sin'), None),
    np.tan: (_un('tan'), None), np.tanh: (_un('tanh'), None), np.arctan: (_un('arctan'), None),
    np.floor: (_un('floor'), None), np.ceil: (_un('ceil'), None), np.rint: (_un('rint'), None),
    np.trunc: (_un('trunc'), None), np.expm1: (_un('expm1'), None), np.log1p: (_un('log1p'), None),
    np.square: (lambda x: x * x, None),
    np.conjugate: (lambda x: x.conjugate() if hasattr(x, 'conjugate') else x, None),
    np.reciprocal: (lambda x: 1 / lift(x), None),
    np.less: (_cmpf('lt'), bool), np.less_equal: (_cmpf('le'), bool),
    np.greater: (_cmpf('gt'), bool), np.greater_equal: (_cmpf('ge'), bool),
    np.equal: (_cmpf('eq'), bool), np.not_equal: (_cmpf('ne'), bool),
    np.logical_and: (lambda a, b: bool(a) and bool(b), bool),
    np.logical_or: (lambda a, b: bool(a) or bool(b), bool),
    np.logical_not: (lambda a: not bool(a), bool),
    np.logical_xor: (lambda a, b: bool(a) != bool(b), bool),
    np.signbit: (lambda x: bool(cmp(x, 0, 'lt')), bool),
    np.true_divide: (lambda a, b: _div(a, b), None),
    np.power: (lambda a, b: a ** b if isinstance(a, Sym) or isinstance(b, Sym) or nonfinite(a) else lift(a) ** b, None),
    np.float_power: (lambda a, b: lift(a) ** b, None),
    np.deg2rad: (lambda x: lift(x).deg2rad(), None),
    np.copysign: (lambda a, b: abs(a) if bool(cmp(b, 0, 'ge')) else -abs(a), None),
    np.heaviside: (lambda a, b: 1 if bool(cmp(a, 0, 'gt')) else (0 if bool(cmp(a, 0, 'lt')) else b), None),
}

# comparisons whose results may stay undecided (harnesses opt in with ctx.lazy())
LAZY = {np.less: 'lt', np.less_equal: 'le', np.greater: 'gt', np.greater_equal: 'ge',
        np.equal: 'eq', np.not_equal: 'ne'}


def _div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not isinstance(a, Sym) and nonfinite(a):
            return a / 1 if not isinstance(b, Sym) else lift(b).__rtruediv__(a)
        return lift(a) / b
    if nonfinite(a) or nonfinite(b):
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))
    return lift(a) / lift(b)


def array_ufunc(ufunc, method, inputs, kw):
    ints = builtins.any(isinstance(x, IntSymArray) for x in inputs) and method == '__call__' and \
        ufunc in INTPRES and builtins.all(int_input(x) for x in inputs) and _kind(kw.get('dtype', int)) in 'iu'
    o = (kw.get('out') or (None,))[0]
    if isinstance(o, IntSymArray) and not ints and method == '__call__' and \
            (ufunc not in INTPRES or not builtins.all(int_input(x) for x in inputs)):
        raise TypeError("Cannot cast ufunc '%s' output from float64 to int64 with casting rule 'same_kind'"
                        % ufunc.__name__)
    r = _array_ufunc(ufunc, method, inputs, kw)
    if ints and isinstance(r, SymArray):
        return r.view(IntSymArray)
    return r


def _array_ufunc(ufunc, method, inputs, kw):
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    for k in ('dtype', 'casting', 'subok', 'order'):
        kw.pop(k, None)
    ins = [unwrap(x) for x in inputs]
    if method == '__call__':
        if ufunc is np.matmul:
            r = s_matmul(*ins)
        elif ufunc in UF:
            f, dt = UF[ufunc]
            bs = np.broadcast_arrays(*[_objarr(a) for a in ins])
            shape = bs[0].shape
            w = np.broadcast_to(where, shape) if where is not True else None
            r = np.empty(shape, dtype=object)
            if out is not None and w is not None:
                r[...] = unwrap(out[0])
            for i in np.ndindex(shape) if not (dt is bool and w is None and ufunc in LAZY) else ():
                if w is not None and not w[i]:
                    continue
                r[i] = f(*[b[i] for b in bs])
            if dt is bool and not (w is None and ufunc in LAZY):
                r = np.array(r.tolist(), dtype=bool).reshape(shape)
            elif dt is bool:
                if ufunc in LAZY and getattr(E.eng(), 'lazy', False):
                    op = LAZY[ufunc]
                    for i in np.ndindex(shape):
                        r[i] = cmp(*[b[i] for b in bs], op)
                        if not isinstance(r[i], SymBool):
                            r[i] = bool(r[i])
                    if any(isinstance(x, SymBool) for x in r.ravel().tolist()):
                        return wrap(r) if shape else r[()]
                else:
                    for i in np.ndindex(shape):
                        r[i] = f(*[b[i] for b in bs])
                r = np.array(r.tolist(), dtype=bool).reshape(shape)
        else:
            r = ufunc(*ins, **({} if where is True else {'where': where}), **kw)
    elif method == 'reduce':
        axis = kw.get('axis', 0)
        kd = kw.get('keepdims', False)
        a = ins[0]
        if where is not True:
            raise Unsupported('ufunc.reduce with where')
        if ufunc in (np.maximum, np.fmax):
            r = unwrap(s_max(a, axis=axis, keepdims=kd))
        elif ufunc in (np.minimum, np.fmin):
            r = unwrap(s_min(a, axis=axis, keepdims=kd))
        elif ufunc in (np.logical_and, np.logical_or):
            r = getattr(ufunc, 'reduce')(tobool(a), axis=axis, keepdims=kd)
        else:
            kw.pop('initial', None)
            r = ufunc.reduce(_objarr(a), **kw)
    elif method == 'accumulate':
        axis = kw.get('axis', 0)
        if ufunc in (np.maximum, np.minimum):
            f = _max2 if ufunc is np.maximum else _min2
            b = _objarr(ins[0])
            r = np.apply_along_axis(
                lambda v: np.array(list(itertools.accumulate(v, f)) + [None], dtype=object)[:-1],
                axis, b)
        else:
            r = ufunc.accumulate(_objarr(ins[0]), **kw)
    elif method == 'outer':
        r = unwrap(array_ufunc(ufunc, '__call__',
                               (_objarr(ins[0]).reshape(np.shape(ins[0]) + (1,) * np.ndim(ins[1])),
                                _objarr(ins[1])), {}))
    elif method == 'at':
        a, idx = inputs[0], fix_index(inputs[1])
        getattr(ufunc, 'at')(unwrap(a), idx, *ins[2:])
        return None
    else:
        raise Unsupported('ufunc method %s' % method)
    if out is not None:
        o = out[0]
        if isinstance(o, SymArray):
            o.view(np.ndarray)[...] = unwrap(r)
            return o
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                o[...] = unwrap(r)
                return wrap(o)
            if isinstance(r, np.ndarray) and r.dtype != object:
                o[...] = r
                return o
            # storing symbolic values into a concrete float array
            raise Unsupported('in-place result of symbolic data in a %s array' % o.dtype)
    return wrap(r)


# -------------------------------------------------------- numpy functions
def norm_axis(a, axis):
    return a


def reduce_axis(f, a, axis=None, keepdims=False):
    b = _objarr(a)
    if b.ndim == 0:
        return f([b.item()])
    if axis is None:
        r = f(list(b.ravel()))
        if keepdims:
            o = np.empty((1,) * b.ndim, dtype=object)
            o[...] = r
            return wrap(o)
        return r
    if isinstance(axis, tuple):
        ax = [x % b.ndim for x in axis]
        keep = [i for i in range(b.ndim) if i not in ax]
        c = b.transpose(keep + ax).reshape([b.shape[i] for i in keep] + [-1])
        r = reduce_axis(f, c, -1)
        if keepdims:
            r = mk(r).reshape([1 if i in ax else b.shape[i] for i in range(b.ndim)])
        return r
    axis = int(axis)
    c = np.moveaxis(b, axis, -1)
    if c.ndim == 1:
        r = f(list(c))
        if keepdims:
            return mk([r])
        return r
    vals = [f(list(c[i])) for i in np.ndindex(c.shape[:-1])]
    if vals and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in vals):
        out = np.array(vals, dtype=int).reshape(c.shape[:-1])
    else:
        out = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            out[i] = v
        out = out.reshape(c.shape[:-1])
    if keepdims:
        out = np.expand_dims(out, axis)
    return wrap(out)


def _sum(xs):
    t = 0
    for x in xs:
        t = t + x
    return lift(t) if not nonfinite(t) else t


def _prod(xs):
    t = 1
    for x in xs:
        t = t * x
    return t


_HARMLESS = {'dtype', 'copy', 'order', 'kind', 'stable', 'equal_nan', 'optimize', 'casting', 'like', 'subok', 'device',
             'overwrite_x', 'overwrite_input', 'workers', 'sorted', 'rcond', 'rtol', 'hermitian', 'plan', 'shape',
             'return_pinv', 'assume_unique'}


def _nok(k, out=None):
    """no argument is ignored silently"""
    if out is not None:
        raise Unsupported('output argument')
    for n, v in k.items():
        if n in _HARMLESS or v is None or v is np._NoValue or (n == 'where' and v is True) or \
                (n == 'keepdims' and v is False):
            continue
        raise Unsupported('numpy argument %s' % n)


def s_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True, **k):
    _nok(k, out)
    if where is not True:
        a = s_where(where, a, 0)
    r = reduce_axis(_sum, a, axis, keepdims)
    return r + initial if not (isinstance(initial, int) and initial == 0) else r


def s_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _nok(k, out)
    return reduce_axis(_prod, a, axis, keepdims)


def s_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True, **k):
    _nok(k, out)
    if where is not True:
        w = np.broadcast_to(unwrap(mk(where)), mk(a).shape)
        return s_sum(s_where(w, a, 0), axis=axis, keepdims=keepdims) / s_sum(s_where(w, 1, 0), axis=axis, keepdims=keepdims)

    def f(xs):
        if not xs:
            return float('nan')
        return _sum(xs) / len(xs)
    return reduce_axis(f, a, axis, keepdims)


def s_average(a, axis=None, weights=None, returned=False, **k):
    _nok(k)
    if weights is None:
        return s_mean(a, axis)
    a = mk(a)
    w = mk(weights)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = len(w)
        w = w.reshape(sh)
        w = wrap(np.broadcast_to(unwrap(w), a.shape))
    sw = s_sum(w, axis)
    r = s_sum(a * w, axis) / sw
    return (r, sw) if returned else r


def s_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    _nok(k, out)
    def f(xs):
        n = len(xs)
        if n == 0:
            return float('nan')
        m = _sum(xs) / n
        if not isinstance(m, Sym):
            return float('nan')
        return _sum([((x - m) * (x - m).conjugate()).real for x in map(lift, xs)]) / (n - ddof)
    return reduce_axis(f, a, axis, keepdims)


def s_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    _nok(k, out)
    v = s_var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return np.sqrt(v)


def _ext(a, axis, keepdims, initial, where, big):
    if where is not None and where is not True and where is not np._NoValue:
        raise Unsupported('where of a minimum or maximum')
    if initial is np._NoValue:
        initial = None

    def f(xs):
        xs = list(xs) + ([] if initial is None else [initial])
        return xs[argext(xs, big)]
    return reduce_axis(f, a, axis, keepdims)


def s_min(a, axis=None, out=None, keepdims=False, initial=None, where=True, **k):
    _nok(k, out)
    return _ext(a, axis, keepdims, initial, where, False)


def s_max(a, axis=None, out=None, keepdims=False, initial=None, where=True, **k):
    _nok(k, out)
    return _ext(a, axis, keepdims, initial, where, True)


def s_ptp(a, axis=None, **k):
    _nok(k)
    return s_max(a, axis) - s_min(a, axis)


def s_argmin(a, axis=None, out=None, keepdims=False, **k):
    _nok(k, out)
    if mk(a).size == 0:
        raise ValueError('attempt to get argmin of an empty sequence')
    return _intres(reduce_axis(lambda xs: argext(xs, False), a, axis, keepdims))


def s_argmax(a, axis=None, out=None, keepdims=False, **k):
    _nok(k, out)
    if mk(a).size == 0:
        raise ValueError('attempt to get argmax of an empty sequence')
    return _intres(reduce_axis(lambda xs: argext(xs, True), a, axis, keepdims))


def _intres(r):
    return np.int64(r) if isinstance(r, int) else r


def _nanred(f):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        _nok({}, out)
        return reduce_axis(lambda xs: f([x for x in xs if not _isnan(x)], **k), a, axis, keepdims)
    return g


def s_nanmin(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _nok(k, out)
    return reduce_axis(lambda xs: s_min([x for x in xs if not _isnan(x)]), a, axis, keepdims)


def s_nanmax(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _nok(k, out)
    return reduce_axis(lambda xs: s_max([x for x in xs if not _isnan(x)]), a, axis, keepdims)


def s_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _nok(k, out)
    return reduce_axis(lambda xs: _sum([x for x in xs if not _isnan(x)]), a, axis, keepdims)


def s_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _nok(k, out)
    return reduce_axis(lambda xs: s_mean([x for x in xs if not _isnan(x)]), a, axis, keepdims)


def s_nanargmin(a, axis=None, **k):
    _nok(k)
    return s_argmin(emap(lambda x: float('inf') if _isnan(x) else x, a), axis)


def perm_sorted(xs):
    """stable argsort of a list by symbolic insertion sort"""
    order = []
    for i, x in enumerate(xs):
        lo, hi = 0, len(order)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(_sb(cmp(xs[order[mid]], x, 'le'))):
                lo = mid + 1
            else:
                hi = mid
        order.insert(lo, i)
    return order


def _nan_last(xs):
    good = [i for i, x in enumerate(xs) if not _isnan(x)]
    bad = [i for i, x in enumerate(xs) if _isnan(x)]
    o = perm_sorted([xs[i] for i in good])
    return [good[i] for i in o] + bad


def s_argsort(a, axis=-1, kind=None, order=None, **k):
    _nok(k)
    b = _objarr(a)
    if axis is None:
        b = b.ravel()
        axis = 0
    c = np.moveaxis(b, axis, -1)
    out = np.empty(c.shape, dtype=int)
    for i in np.ndindex(c.shape[:-1]):
        out[i] = _nan_last(list(c[i]))
    return np.moveaxis(out, -1, axis)


def s_sort(a, axis=-1, kind=None, order=None, **k):
    _nok(k)
    b = _objarr(a)
    if axis is None:
        b = b.ravel()
        axis = 0
    o = s_argsort(b, axis)
    return wrap(np.take_along_axis(b, o, axis))


def s_median(a, axis=None, out=None, overwrite_input=False, keepdims=False, **k):
    _nok(k, out)
    def f(xs):
        n = len(xs)
        if n == 0 or any(_isnan(x) for x in xs):
            return float('nan')
        o = perm_sorted(xs)
        if n % 2:
            return lift(xs[o[n // 2]])
        return (lift(xs[o[n // 2 - 1]]) + xs[o[n // 2]]) / 2
    return reduce_axis(f, a, axis, keepdims)


def s_percentile(a, q, axis=None, **k):
    _nok(k)
    return s_quantile(a, np.asarray(q) / 100 if not has_sym(q) else q / 100, axis, **k)


def s_quantile(a, q, axis=None, keepdims=False, interpolation=None, method='linear', **k):
    _nok(k)
    def one(qq):
        def f(xs):
            n = len(xs)
            o = perm_sorted(xs)
            pos = snap(qq) * (n - 1)
            lo = math.floor(pos)
            fr = pos - lo
            hi = builtins.min(lo + 1, n - 1)
            return lift(xs[o[lo]]) + (lift(xs[o[hi]]) - xs[o[lo]]) * fr
        return reduce_axis(f, a, axis, keepdims)
    if np.ndim(q) == 0:
        return one(float(q))
    return mk([unwrap(one(float(x))) for x in q])


def s_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    _nok(k)
    X = mk(m)
    if X.ndim == 1:
        X = X[np.newaxis, :]
    if not rowvar and X.shape[0] != 1:
        X = X.T
    if y is not None:
        Y = mk(y)
        if Y.ndim == 1:
            Y = Y[np.newaxis, :]
        X = wrap(np.concatenate((unwrap(X), unwrap(Y)), axis=0))
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    X = X - s_mean(X, axis=1, keepdims=True)
    c = s_dot(X, X.T.conj()) / (n - ddof)
    return c.squeeze() if c.size > 1 else c.item()


def s_corrcoef(x, y=None, rowvar=True, **k):
    _nok(k)
    c = s_cov(x, y, rowvar)
    if isinstance(c, Sym):
        return c / c
    d = np.diag(unwrap(c))
    sd = [np.sqrt(lift(v.real)) for v in d]
    n = len(sd)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = c[i, j] / c[i, i] if i == j else c[i, j] / sd[i] / sd[j]
    return wrap(out)


def s_trapz(y, x=None, dx=1.0, axis=-1):
    y = mk(y)
    if x is None:
        d = dx
    else:
        x = mk(x)
        d = x[1:] - x[:-1]
        if x.ndim == 1:
            sh = [1] * y.ndim
            sh[axis] = d.shape[0]
            d = d.reshape(sh)
    a = np.moveaxis(unwrap(y), axis, -1)
    if isinstance(d, SymArray) and d.ndim:
        d = wrap(np.moveaxis(unwrap(d), axis, -1))
    s = wrap(a[..., 1:]) + wrap(a[..., :-1])
    return s_sum(s * d / 2, axis=-1)


def s_cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    y = mk(y)
    if y.ndim != 1:
        raise Unsupported('cumtrapz nd')
    d = (mk(x)[1:] - mk(x)[:-1]) if x is not None else dx
    r = wrap(np.cumsum(unwrap((y[1:] + y[:-1]) * d / 2)))
    if initial is not None:
        r = wrap(np.concatenate(([initial], unwrap(r))))
    return r


def s_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xp = list(mk(xp))
    fp = list(mk(fp))
    n = len(xp)

    def one(v):
        if bool(_sb(cmp(v, xp[0], 'lt'))):
            return lift(fp[0] if left is None else left)
        if bool(_sb(cmp(v, xp[-1], 'gt'))):
            return lift(fp[-1] if right is None else right)
        lo, hi = 0, n - 1
        # find segment with xp[lo] <= v <= xp[lo+1]
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if bool(_sb(cmp(v, xp[mid], 'lt'))):
                hi = mid
            else:
                lo = mid
        if n == 1:
            return lift(fp[0])
        d = lift(xp[lo + 1]) - xp[lo]
        return lift(fp[lo]) + (lift(fp[lo + 1]) - fp[lo]) * (lift(v) - xp[lo]) / d
    return emap(one, x)


def s_dot(a, b, out=None):
    a0, b0 = _objarr(a), _objarr(b)
    if a0.ndim == 0 or b0.ndim == 0:
        return wrap(np.multiply(a0, b0))
    if a0.ndim == 1 and b0.ndim == 1:
        if len(a0) != len(b0):
            raise ValueError('shapes not aligned')
        return _sum([x * y for x, y in zip(a0, b0)])
    return wrap(np.dot(a0, b0))


def s_matmul(a, b):
    a0, b0 = _objarr(a), _objarr(b)
    if a0.ndim == 1 and b0.ndim == 1:
        return unwrap(s_dot(a, b))
    return np.matmul(a0, b0)


def s_vdot(a, b):
    return s_dot(mk(a).ravel().conj(), mk(b).ravel())


def s_einsum(*ops, **k):
    _nok(k)
    sub = ops[0]
    arrs = [_objarr(x) for x in ops[1:]]
    if not isinstance(sub, str):
        raise Unsupported('einsum list form')
    sub = sub.replace(' ', '')
    if '->' in sub:
        lhs, rhs = sub.split('->')
    else:
        lhs = sub
        cnt = {}
        for ch in lhs.replace(',', ''):
            cnt[ch] = cnt.get(ch, 0) + 1
        rhs = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = lhs.split(',')
    if '.' in lhs:
        raise Unsupported('einsum ellipsis')
    dims = {}
    for s, a in zip(ins, arrs):
        for ch, d in zip(s, a.shape):
            if ch in dims and dims[ch] != d and dims[ch] != 1 and d != 1:
                raise ValueError('einsum dimension mismatch')
            dims[ch] = builtins.max(dims.get(ch, 1), d)
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for oi in np.ndindex(out.shape):
        env = dict(zip(rhs, oi))
        tot = 0
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = 1
            for s, a in zip(ins, arrs):
                t = t * a[tuple(env[c] if a.shape[q] != 1 else 0 for q, c in enumerate(s))]
            tot = tot + t
        out[oi] = tot
    return wrap(out)


def s_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min, a_max = k.pop('min', a_min), k.pop('max', a_max)
    _nok(k, out)
    r = mk(a)
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


def s_round(a, decimals=0, out=None):
    f = 10 ** decimals
    return emap(lambda x: lift((lift(x) * f).rint()) / f, a)


def s_where(cond, *xy):
    if isinstance(cond, (SymArray, SymBool)):
        cond = tobool(cond)
    if not xy:
        return np.where(cond)
    x, y = [_objarr(v) for v in xy]
    return wrap(np.where(cond, x, y))


def s_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if nonfinite(x) or nonfinite(y):
            return x == y
        return bool(_sb(cmp(abs(lift(x) - y), abs(lift(y)) * rtol + atol, 'le')))
    return cast(emap(f, a, b), bool) if np.ndim(a) or np.ndim(b) else f(_py(unwrap(a)), _py(unwrap(b)))


def s_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(s_isclose(a, b, rtol, atol)))


def s_array_equal(a, b, **k):
    _nok(k)
    a, b = mk(a), mk(b)
    if a.shape != b.shape:
        return False
    return all(bool(_sb(cmp(x, y, 'eq'))) for x, y in zip(a.ravel(), b.ravel()))


def s_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    _nok(k)
    xs = list(_objarr(a).ravel())
    o = perm_sorted(xs)
    groups = []
    for i in o:
        if groups and bool(_sb(cmp(xs[groups[-1][0]], xs[i], 'eq'))):
            groups[-1].append(i)
        else:
            groups.append([i])
    u = mk([xs[g[0]] for g in groups])
    res = [u]
    if return_index:
        res.append(np.array([g[0] for g in groups]))
    if return_inverse:
        inv = np.empty(len(xs), dtype=int)
        for gi, g in enumerate(groups):
            for i in g:
                inv[i] = gi
        res.append(inv)
    if return_counts:
        res.append(np.array([len(g) for g in groups]))
    return res[0] if len(res) == 1 else tuple(res)


def s_convolve(a, v, mode='full'):
    a, v = list(_objarr(a)), list(_objarr(v))
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = []
    for k in range(n + m - 1):
        t = 0
        for j in range(builtins.max(0, k - n + 1), builtins.min(m, k + 1)):
            t = t + a[k - j] * v[j]
        full.append(t)
    if mode == 'full':
        return mk(full)
    if mode == 'same':
        s = (m - 1) // 2
        return mk(full[s:s + n])
    if mode == 'valid':
        return mk(full[m - 1:n])
    raise Unsupported('convolve mode')


def s_correlate(a, v, mode='valid'):
    return s_convolve(a, mk(v)[::-1].conj(), mode)


def s_searchsorted(a, v, side='left', sorter=None):
    xs = list(_objarr(a))

    def one(y):
        lo, hi = 0, len(xs)
        while lo < hi:
            mid = (lo + hi) // 2
            go = cmp(xs[mid], y, 'lt' if side == 'left' else 'le')
            if bool(_sb(go)):
                lo = mid + 1
            else:
                hi = mid
        return lo
    r = emap(one, v)
    return r if isinstance(r, int) else np.array(r.tolist(), dtype=int)


def s_digitize(x, bins, right=False):
    return s_searchsorted(bins, x, side='left' if right else 'right')


def s_angle(z, deg=False):
    def f(x):
        x = lift(x)
        return ufun('arctan2', x.imag, x.real)
    return emap(f, z)


def s_polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    if full or cov:
        raise Unsupported('polyfit options')
    x, y = mk(x), mk(y)
    A = mk([[xi ** (deg - j) for j in range(deg + 1)] for xi in x])
    if len(x) == 0:
        raise TypeError('expected non-empty vector for x')
    if len(x) == deg + 1:
        return s_solve(A, y)
    if w is not None:
        w = mk(w)
        A = A * w[:, np.newaxis]
        y = y * w
    return s_solve(s_dot(A.T, A), s_dot(A.T, y))


def s_polyval(p, x):
    r = 0
    for c in mk(p):
        r = r * x + c
    return r


class SymPoly1d:
    def __init__(self, c):
        self.coeffs = self.c = self.coef = mk(c)
        self.order = len(self.c) - 1

    def __call__(self, x):
        if isinstance(x, (list, tuple)):
            x = mk(x)
        return s_polyval(self.c, x)

    def __getitem__(self, k):
        return self.c[len(self.c) - 1 - k] if 0 <= k < len(self.c) else 0

    def deriv(self, m=1):
        n = len(self.c) - 1
        r = SymPoly1d([self.c[i] * (n - i) for i in range(n)] or [0])
        return r if m == 1 else r.deriv(m - 1)


def s_gradient(f, *varargs, **k):
    _nok(k)
    f = mk(f)
    if f.ndim != 1 or len(varargs) > 1:
        raise Unsupported('gradient')
    h = varargs[0] if varargs else 1
    if np.ndim(h):
        raise Unsupported('gradient spacing')
    n = len(f)
    return mk([(f[1] - f[0]) / h] + [(f[i + 1] - f[i - 1]) / (2 * h) for i in range(1, n - 1)]
              + [(f[n - 1] - f[n - 2]) / h])


def s_nan_to_num(x, copy=True, nan=0.0, **k):
    _nok(k)
    return emap(lambda v: nan if _isnan(v) else v, x)


# --------------------------------------------------------------- linalg
def s_det(a):
    A = _objarr(a)
    if A.ndim > 2:
        return mk([s_det(x) for x in A])
    n = A.shape[0]
    if n == 1:
        return lift(A[0, 0])
    if n <= 3:
        t = 0
        for j in range(n):
            minor = np.delete(np.delete(A, 0, 0), j, 1)
            t = t + (1 if j % 2 == 0 else -1) * (A[0, j] * s_det(minor))
        return t
    L, d = _eliminate(A, np.zeros((n, 0), dtype=object))
    return d


def _eliminate(A, B):
    A = A.copy()
    B = B.copy()
    n = A.shape[0]
    det = lift(1)
    for i in range(n):
        p = None
        for r in range(i, n):           # prefer constant pivots
            x = lift(A[r, i])
            if x.is_zero():
                continue
            if x.is_const():
                p = r
                break
            if p is None:
                p = r
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        if p != i:
            A[[i, p]] = A[[p, i]]
            B[[i, p]] = B[[p, i]]
            det = -det
        piv = lift(A[i, i])
        det = det * piv
        inv = 1 / piv
        for r in range(n):
            if r == i:
                continue
            f = A[r, i] * inv
            if isinstance(f, Sym) and f.is_zero():
                continue
            for c in range(i, n):
                A[r, c] = A[r, c] - f * A[i, c]
            for c in range(B.shape[1]):
                B[r, c] = B[r, c] - f * B[i, c]
        for c in range(i, n):
            A[i, c] = A[i, c] * inv
        for c in range(B.shape[1]):
            B[i, c] = B[i, c] * inv
    return B, det


def s_inv(a):
    A = _objarr(a)
    if A.ndim > 2:
        return mk([unwrap(s_inv(x)) for x in A])
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = A.shape[0]
    if n == 0:
        return np.zeros((0, 0))
    A = np.array([[lift(x) for x in row] for row in A], dtype=object).reshape(n, n)
    if n <= 3:
        d = s_det(A)
        if d.is_zero():
            raise np.linalg.LinAlgError('Singular matrix')
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = np.delete(np.delete(A, j, 0), i, 1)
                cof = s_det(minor) if n > 1 else lift(1)
                out[i, j] = cof * (1 if (i + j) % 2 == 0 else -1) / d
        return wrap(out)
    I = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            I[i, j] = lift(1 if i == j else 0)
    B, _ = _eliminate(A, I)
    return wrap(B)


def s_solve(a, b):
    B = _objarr(b)
    x = s_dot(s_inv(a), B)
    return x


def s_pinv(a, *args, **k):
    _nok(k)
    A = mk(a)
    if A.ndim > 2:
        return mk([unwrap(s_pinv(x)) for x in unwrap(A)])
    if A.size == 0:
        return np.zeros(A.shape[::-1])
    if A.shape[0] == A.shape[1]:
        u = unwrap(A)
        z = lambda v: not isinstance(v, Sym) and v == 0 or isinstance(v, Sym) and v.is_zero()
        keep = [i for i in range(len(u)) if not (all(z(v) for v in u[i]) and all(z(v) for v in u[:, i]))]
        if len(keep) == len(u):
            return s_inv(A)
        # rows and columns of zeros stay zero
        r = mk(np.zeros(A.shape))
        if keep:
            r[np.ix_(keep, keep)] = s_inv(mk(u[np.ix_(keep, keep)]))
        return r
    if A.shape[0] > A.shape[1]:
        return s_dot(s_inv(s_dot(A.conj().T, A)), A.conj().T)
    return s_dot(A.conj().T, s_inv(s_dot(A, A.conj().T)))


def s_lstsq(a, b, rcond=None):
    x = s_dot(s_pinv(a), b)
    r = mk(b) - s_dot(a, x)
    return x, mk([s_sum(r * r)]), mk(a).shape[1], None


def s_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported('norm ord')
    return np.sqrt(s_sum(emap(lambda v: (lift(v) * lift(v).conjugate()).real, x), axis=axis))


# ------------------------------------------------------------------- FFT
def _roots(n, inverse):
    out = []
    for k in range(n):
        a = Rat(Poly({((E.eng().pi().id, 1),): Fraction(2 * k, n) if inverse else Fraction(-2 * k, n)})) \
            if k else Rat(P.ZERO)
        c, s = cis(a)
        out.append(Sym(c, s))
    return out


def _dft(xs, n, inverse):
    xs = list(xs)[:n]
    xs = xs + [0] * (n - len(xs))
    w = _roots(n, inverse)
    res = []
    for k in range(n):
        t = lift(0)
        for j in range(n):
            x = xs[j]
            if isinstance(x, Sym):
                if x.is_zero():
                    continue
            elif x == 0:
                continue
            t = t + w[(k * j) % n] * x
        res.append(t)
    return res


def _along(f, a, axis):
    b = _objarr(a)
    c = np.moveaxis(b, axis, -1)
    first = None
    rows = []
    for i in np.ndindex(c.shape[:-1]):
        rows.append(f(list(c[i])))
    m = len(rows[0]) if rows else 0
    out = np.empty((len(rows), m), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            out[i, j] = v
    out = out.reshape(c.shape[:-1] + (m,))
    return wrap(np.moveaxis(out, -1, axis))


def _normf(norm, n, inverse):
    if norm in (None, 'backward'):
        return Fraction(1, n) if inverse else None
    if norm == 'forward':
        return None if inverse else Fraction(1, n)
    if norm == 'ortho':
        return 1 / lift(n).sqrt()
    raise ValueError('norm')


def _scale(xs, f):
    return xs if f is None else [x * f for x in xs]


def s_fft(a, n=None, axis=-1, norm=None, **k):
    _nok(k)
    def f(xs):
        m = n or len(xs)
        return _scale(_dft(xs, m, False), _normf(norm, m, False))
    return _along(f, a, axis)


def s_ifft(a, n=None, axis=-1, norm=None, **k):
    _nok(k)
    def f(xs):
        m = n or len(xs)
        return _scale(_dft(xs, m, True), _normf(norm, m, True))
    return _along(f, a, axis)


def s_rfft(a, n=None, axis=-1, norm=None, **k):
    _nok(k)
    def f(xs):
        m = n or len(xs)
        return _scale(_dft([lift(x).real for x in xs], m, False)[:m // 2 + 1], _normf(norm, m, False))
    return _along(f, a, axis)


def s_irfft(a, n=None, axis=-1, norm=None, **k):
    _nok(k)
    def f(xs):
        m = n or 2 * (len(xs) - 1)
        h = [lift(x) for x in xs][:m // 2 + 1]
        h = h + [lift(0)] * (m // 2 + 1 - len(h))
        full = [h[0].real]
        for q in range(1, m):
            if q <= m // 2:
                x = h[q]
                if m % 2 == 0 and q == m // 2:
                    x = x.real
                full.append(x)
            else:
                full.append(h[m - q].conjugate())
        return _scale([x.real for x in _dft(full, m, True)], _normf(norm, m, True))
    return _along(f, a, axis)


def s_fftfreq(n, d=1.0, **k):
    _nok(k)
    n = int(n)
    idx = list(range(0, (n - 1) // 2 + 1)) + list(range(-(n // 2), 0))
    val = 1 / (lift(d) * n)
    return mk([val * i for i in idx])


def s_rfftfreq(n, d=1.0, **k):
    _nok(k)
    n = int(n)
    val = 1 / (lift(d) * n)
    return mk([val * i for i in range(n // 2 + 1)])


def s_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if dtype is not None and np.dtype(dtype).kind in 'iu' and not has_sym(start) and not has_sym(stop):
        return np.linspace(start, stop, num, endpoint, retstep, dtype)
    div = (num - 1) if endpoint else num
    start, stop = lift(start), lift(stop)
    step = (stop - start) / div if div > 0 else lift(0)
    r = mk([start + step * i for i in range(num)]) if num else np.empty(0, dtype=object).view(SymArray)
    return (r, step) if retstep else r


def s_arange(*args, dtype=None, **k):
    _nok(k)
    if not any(has_sym(a) for a in args):
        r = np.arange(*args, dtype=dtype)
        if r.dtype.kind in 'iu':
            return r
        # float arange: same length rule as numpy, exact values
        a = list(args)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        return mk([lift(start) + lift(step) * i for i in range(len(r))])
    a = list(args)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    n = int(np.ceil((lift(stop) - start) / step))
    return mk([lift(start) + lift(step) * i for i in range(builtins.max(n, 0))])


def s_full(shape, fill, dtype=None, **k):
    _nok(k)
    if _symint(dtype):
        r = np.empty(shape, dtype=object).view(IntSymArray)
        r[...] = fill
        return r
    if dtype is not None and np.dtype(dtype).kind in 'biu':
        return np.full(shape, fill, dtype=dtype)
    if isinstance(fill, (bool, np.bool_)) and dtype is None:
        return np.full(shape, fill)
    if dtype is None and isinstance(fill, (int, np.integer)):
        return np.full(shape, fill)
    out = np.empty(shape, dtype=object)
    f = fill if (nonfinite(fill) if not isinstance(fill, (Sym, np.ndarray, list)) else False) else None
    if f is None:
        out[...] = unwrap(mk(fill)) if np.ndim(fill) else lift(fill)
    else:
        out[...] = f
    return out.view(SymArray) if out.ndim else out.item()


def _kind(dtype):
    if dtype is None:
        return 'f'
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return 'O'


def s_zeros(shape, dtype=None, *a, **k):
    _nok(k)
    if _symint(dtype):
        return s_full(shape, 0, INTDT)
    if _kind(dtype) in 'biuSU':
        return np.zeros(shape, dtype=dtype)
    return s_full(shape, 0.0)


def s_ones(shape, dtype=None, *a, **k):
    _nok(k)
    if _symint(dtype):
        return s_full(shape, 1, INTDT)
    if _kind(dtype) in 'biuSU':
        return np.ones(shape, dtype=dtype)
    return s_full(shape, 1.0)


def s_empty(shape, dtype=None, *a, **k):
    _nok(k)
    if _symint(dtype):
        return s_full(shape, 0, INTDT)
    if _kind(dtype) in 'biuSU':
        return np.zeros(shape, dtype=dtype)
    # reading uninitialised memory is an arbitrary value
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(out.shape):
        v = E.eng().fresh('uninit')
        out[i] = Sym(Rat(Poly.var(v.id)))
    return out.view(SymArray)


def _like(f):
    def g(a, dtype=None, *r, **k):
        shape = np.shape(unwrap(a)) if k.get('shape') is None else k['shape']
        if dtype is None and isinstance(a, np.ndarray) and a.dtype != object:
            dtype = a.dtype
        if dtype is None and not has_sym(a) and not isinstance(a, np.ndarray):
            dtype = np.asarray(a).dtype
        return f(shape, dtype)
    return g


def s_full_like(a, fill, dtype=None, **k):
    _nok(k)
    if dtype is None and isinstance(a, IntSymArray):
        dtype = INTDT
    return s_full(np.shape(unwrap(a)), fill, dtype)


def s_array(x, dtype=None, copy=True, ndmin=0, **k):
    _nok(k)
    kind = _kind(dtype) if dtype is not None else None
    if isinstance(x, IntSymArray) and kind in (None, 'i') and ndmin <= x.ndim:
        return x.copy() if copy else x
    if isinstance(x, np.ndarray) and x.dtype != object and not isinstance(x, SymArray):
        if x.dtype.kind in 'fc' and kind in (None, 'f', 'c'):
            return x.copy() if copy else x
        return np.array(x, dtype=dtype, copy=bool(copy), ndmin=ndmin)
    if has_sym(x) or _deep_sym(x):
        r = mk(x)
        if kind in ('b', 'i', 'u'):
            return cast(r, dtype)
        if kind is None:
            fl = unwrap(r).ravel().tolist()
            if fl and all(isinstance(v, (bool, np.bool_, SymBool)) for v in fl):
                return tobool(r)
        r = r.copy() if copy else r
        while r.ndim < ndmin:
            r = r[np.newaxis]
        return r if isinstance(r, SymArray) else mk(r)
    return np.array(x, dtype=dtype, ndmin=ndmin)


def _deep_sym(x):
    if isinstance(x, (types.GeneratorType,)):
        return False
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    return isinstance(x, (Sym, SymBool)) or (isinstance(x, np.ndarray) and x.dtype == object)


def s_asarray(x, dtype=None, **k):
    _nok(k)
    if isinstance(x, SymArray) and (dtype is None or _kind(dtype) in 'fcO') and \
            not (isinstance(x, IntSymArray) and dtype is not None):
        return x
    return s_array(x, dtype=dtype, copy=False)


def s_atleast_1d(*xs):
    r = []
    for x in xs:
        if isinstance(x, Sym):
            r.append(mk([x]))
        elif has_sym(x):
            m = mk(x)
            r.append(m if m.ndim else m.reshape(1))
        else:
            r.append(np.atleast_1d(x))
    return r[0] if len(r) == 1 else r


def s_real(x):
    if isinstance(x, Sym):
        return x.real
    if has_sym(x):
        return mk(x).real
    return np.real(x)


def s_imag(x):
    if isinstance(x, Sym):
        return x.imag
    if has_sym(x):
        return mk(x).imag
    return np.imag(x)


def s_isreal(x):
    return emap(lambda v: not isinstance(v, Sym) or v.im is None, x)


def s_iscomplexobj(x):
    if isinstance(x, Sym):
        return x.im is not None
    return any(isinstance(v, Sym) and v.im is not None or isinstance(v, complex)
               for v in _objarr(x).ravel())


def s_isscalar(x):
    return True if isinstance(x, Sym) else np.isscalar(x)


def s_r_(key):
    return np.r_[key]


def s_diag(v, k=0):
    v = _objarr(v)
    if v.ndim == 2:
        return wrap(np.diagonal(v, k).copy())
    n = len(v)
    m = n + builtins.abs(k)
    out = np.empty((m, m), dtype=object)
    for i in range(m):
        for j in range(m):
            out[i, j] = lift(0)
    for i in range(n):
        out[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
    return wrap(out)


def s_select(condlist, choicelist, default=0):
    r = _objarr(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np.where(tobool(c) if has_sym(c) else c, _objarr(v), r)
    return wrap(r)


def s_apply_along_axis(f, axis, arr, *a, **k):
    b = mk(arr)
    c = wrap(np.moveaxis(unwrap(b), axis, -1))
    rows = [f(c[i], *a, **k) for i in np.ndindex(c.shape[:-1])]
    if np.ndim(unwrap(rows[0])) == 0:
        return mk(rows).reshape(c.shape[:-1])
    return wrap(np.moveaxis(np.array([unwrap(mk(r)) for r in rows], dtype=object)
                            .reshape(c.shape[:-1] + (-1,)), -1, axis))


def s_isin(a, b, **k):
    _nok(k)
    bs = list(_objarr(b).ravel())
    return emap(lambda x: any(bool(_sb(cmp(x, y, 'eq'))) for y in bs), a)


def s_count_nonzero(a, axis=None, **k):
    _nok(k)
    return np.count_nonzero(tobool(a), axis=axis)


def s_flatnonzero(a):
    return np.flatnonzero(tobool(a))


def s_nonzero(a):
    return np.nonzero(tobool(a))


def s_histogram(a, bins=10, range=None, density=None, weights=None):
    if density or weights is not None or not isinstance(bins, (int, np.integer)):
        raise Unsupported('histogram')
    a = mk(a).ravel()
    if range is None:
        lo, hi = s_min(a), s_max(a)
    else:
        lo, hi = range
    edges = s_linspace(lo, hi, int(bins) + 1)
    n = np.zeros(int(bins), dtype=int)
    for v in a.tolist():
        if bool(_sb(cmp(v, edges[0], 'lt'))) or bool(_sb(cmp(v, edges[-1], 'gt'))):
            continue
        i = int(s_searchsorted(edges[1:-1], v, side='right')) if bins > 1 else 0
        n[i] += 1
    return n, edges


def s_any(a, axis=None, **k):
    _nok(k)
    return np.any(tobool(a), axis=axis)


def s_all(a, axis=None, **k):
    _nok(k)
    return np.all(tobool(a), axis=axis)


def s_kron(a, b):
    a, b = mk(a), mk(b)
    return wrap(np.kron(unwrap(a), unwrap(b)))


def s_fix(x):
    return emap(lambda v: lift(int(lift(v))), x)


def s_bincount(x, weights=None, minlength=0):
    x = [int(v) for v in unwrap(mk(x)).ravel()]
    w = [1] * len(x) if weights is None else list(unwrap(mk(weights)).ravel())
    r = [0] * builtins.max([v + 1 for v in x] + [minlength])
    for i, v in zip(x, w):
        r[i] = r[i] + v
    return np.array(r) if weights is None else mk([lift(v) for v in r])


def s_multi_dot(arrays, out=None):
    _nok({}, out)
    r = arrays[0]
    for a in arrays[1:]:
        r = s_dot(r, a)
    return r


def s_matrix_power(a, n):
    a = mk(a)
    if n < 0:
        a, n = s_inv(a), -n
    r = s_diag(mk([lift(1)] * a.shape[0]))
    for _ in range(n):
        r = s_dot(r, a)
    return r


TABLE = {}


def _reg():
    T = TABLE
    T.update({
        np.sum: s_sum, np.prod: s_prod, np.mean: s_mean, np.average: s_average, np.var: s_var,
        np.std: s_std, np.min: s_min, np.max: s_max, np.amin: s_min, np.amax: s_max, np.ptp: s_ptp,
        np.argmin: s_argmin, np.argmax: s_argmax, np.nanmin: s_nanmin, np.nanmax: s_nanmax,
        np.nanmedian: _nanred(s_median), np.nanstd: _nanred(s_std), np.nanvar: _nanred(s_var),
        np.bincount: s_bincount, np.linalg.multi_dot: s_multi_dot,
        np.nansum: s_nansum, np.nanmean: s_nanmean, np.nanargmin: s_nanargmin,
        np.sort: s_sort, np.argsort: s_argsort, np.median: s_median,
        np.percentile: s_percentile, np.quantile: s_quantile, np.cov: s_cov,
        np.corrcoef: s_corrcoef, np.trapz: s_trapz, np.interp: s_interp, np.dot: s_dot,
        np.inner: s_dot, np.vdot: s_vdot, np.einsum: s_einsum, np.clip: s_clip,
        np.round: s_round, np.around: s_round, np.where: s_where, np.isclose: s_isclose,
        np.allclose: s_allclose, np.array_equal: s_array_equal, np.unique: s_unique,
        np.convolve: s_convolve, np.correlate: s_correlate, np.searchsorted: s_searchsorted,
        np.digitize: s_digitize, np.angle: s_angle, np.polyfit: s_polyfit, np.polyval: s_polyval,
        np.poly1d: SymPoly1d,
        np.gradient: s_gradient, np.nan_to_num: s_nan_to_num, np.real: s_real, np.imag: s_imag,
        np.isreal: s_isreal, np.iscomplexobj: s_iscomplexobj, np.diag: s_diag,
        np.select: s_select, np.apply_along_axis: s_apply_along_axis, np.isin: s_isin,
        np.count_nonzero: s_count_nonzero, np.flatnonzero: s_flatnonzero, np.nonzero: s_nonzero,
        np.any: s_any, np.all: s_all, np.fix: s_fix,
        np.zeros_like: _like(s_zeros), np.ones_like: _like(s_ones), np.empty_like: _like(s_empty),
        np.full_like: s_full_like, np.linspace: s_linspace,
        np.linalg.inv: s_inv, np.linalg.pinv: s_pinv, np.linalg.solve: s_solve,
        np.linalg.det: s_det, np.linalg.norm: s_norm, np.linalg.lstsq: s_lstsq,
        np.linalg.matrix_power: s_matrix_power,
        np.fft.fft: s_fft, np.fft.ifft: s_ifft, np.fft.rfft: s_rfft, np.fft.irfft: s_irfft,
        np.fft.fftfreq: s_fftfreq, np.fft.rfftfreq: s_rfftfreq,
        np.copy: lambda a, *r, **k: mk(a).copy(),
        np.atleast_1d: s_atleast_1d,
        np.array2string: lambda *a, **k: '<sym>',
        np.array_repr: lambda *a, **k: '<sym>', np.array_str: lambda *a, **k: '<sym>',
    })


_reg()

# functions for which the default implementation on object arrays is right
STRUCTURAL = True


def array_function(func, args, kw):
    f = TABLE.get(func)
    if f is not None:
        return f(*args, **kw)
    mod = getattr(func, '__module__', '') or ''
    if mod.startswith(('numpy.fft', 'numpy.linalg')) and \
            func.__name__ not in ('fftshift', 'ifftshift'):
        raise Unsupported('numpy function %s' % func.__name__)
    a = [unwrap(x) for x in args]
    k = {q: unwrap(v) for q, v in kw.items()}
    return wrap(func(*a, **k))


# ------------------------------------------------- models of scipy functions
def s_csd(x, y, fs=1.0, window='hann', nperseg=None, noverlap=None, nfft=None, detrend='constant',
          return_onesided=True, scaling='density', axis=-1, average='mean'):
    """scipy.signal.csd for a single segment"""
    x, y = mk(x), mk(y)
    n = x.shape[-1]
    if nperseg is None:
        nperseg = min(256, n)
    if x.ndim != 1 or y.shape != x.shape or int(nperseg) != n or (nfft is not None and int(nfft) != n) \
            or scaling not in ('density', 'spectrum') or detrend not in ('constant', False) \
            or window not in ('hann', 'boxcar') or not return_onesided:
        raise Unsupported('this form of scipy.signal.csd')
    pi = Sym(Rat(Poly.var(E.eng().pi().id)))
    if window == 'boxcar' or n == 1:
        w = [lift(1)] * n
    else:
        w = [(1 - (pi * Fraction(2 * k, n)).cos()) / 2 for k in range(n)]
    out = []
    for v in (x, y):
        m = _sum(list(v)) / n if detrend else 0
        out.append(s_rfft(mk([w[k] * (v[k] - m) for k in range(n)])))
    if scaling == 'density':
        den = fs * _sum([q * q for q in w])
    else:
        den = _sum(w) ** 2
    r = [a.conjugate() * b / den for a, b in zip(lift_list(out[0]), lift_list(out[1]))]
    for k in range(1, len(r)):
        if n % 2 or k < len(r) - 1:
            r[k] = r[k] * 2
    return s_rfftfreq(n, 1 / lift(fs)), mk(r)


def lift_list(a):
    return [lift(v) for v in unwrap(mk(a)).ravel().tolist()]


def s_fftconvolve(a, b, mode='full', axes=None):
    return s_convolve(a, b, mode)


def s_ndshift(input, shift, output=None, order=3, mode='constant', cval=0.0, prefilter=True):
    """scipy.ndimage.shift of a 1-d array: linear interpolation, or (any order) whole samples"""
    a = mk(input)
    if a.ndim != 1 or mode != 'constant' or output is not None:
        raise Unsupported('this form of scipy.ndimage.shift')
    n = len(a)
    s = lift(shift)
    if s.im is not None:
        raise Unsupported('complex shift')
    whole = None
    if s.re.is_const() and s.re.const_value().denominator == 1:
        whole = int(s.re.const_value())
    elif order != 1:
        raise Unsupported('spline shift by a fraction of a sample')
    out = np.empty(n, dtype=object)
    for i in range(n):
        if whole is not None:
            j = i - whole
            out[i] = a[j] if 0 <= j < n else cval
            continue
        x = s * -1 + i
        if bool(_sb(cmp(x, 0, 'lt'))) or bool(_sb(cmp(x, n - 1, 'gt'))):
            out[i] = cval
            continue
        j = min(int(x.floor()), n - 2) if n > 1 else 0
        out[i] = a[j] if n == 1 else a[j] + (a[j + 1] - a[j]) * (x - j)
    return wrap(out)


class SymInterp1d:
    """scipy.interpolate.interp1d(kind='linear') on numeric, increasing abscissae"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=float('nan'),
                 assume_sorted=False):
        if kind not in ('linear', 1):
            raise Unsupported('interp1d kind %r' % (kind,))
        x = lift_list(x)
        y = list(unwrap(mk(y)))
        if len(x) != len(y):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        if not x:
            raise ValueError('cannot reshape array of size 0')
        if not all(v.re.is_const() for v in x):
            raise Unsupported('interp1d with symbolic abscissae')
        o = sorted(range(len(x)), key=lambda i: x[i].re.const_value())
        self.x = [x[i] for i in o]
        self.y = [lift(y[i]) for i in o]
        self.fill = fill_value
        self.err = (fill_value if isinstance(fill_value, str) else None) != 'extrapolate' \
            if bounds_error is None and not isinstance(fill_value, tuple) else bounds_error
        if isinstance(fill_value, float) and fill_value == fill_value and bounds_error is None:
            self.err = False

    def __call__(self, q):
        a = mk(q)
        xs, ys = self.x, self.y
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            v = lift(a[i])
            lo, hi = bool(_sb(cmp(v, xs[0], 'lt'))), bool(_sb(cmp(v, xs[-1], 'gt')))
            if (lo or hi) and not (isinstance(self.fill, str) and self.fill == 'extrapolate'):
                if self.err:
                    raise ValueError('A value in x_new is outside the interpolation range.')
                f = self.fill
                out[i] = (f[0] if lo else f[1]) if isinstance(f, tuple) else f
                continue
            if len(xs) == 1:
                out[i] = float('nan')      # scipy: 0/0 slope
                continue
            k = 0
            while k < len(xs) - 2 and not bool(_sb(cmp(v, xs[k + 1], 'lt'))):
                k += 1
            out[i] = ys[k] + (ys[k + 1] - ys[k]) * (v - xs[k]) / (xs[k + 1] - xs[k])
        return wrap(out)
