"""Symbolic (complex) numbers: exact rational functions over symbolic reals,
overloading the arithmetic the real code performs."""
import math
import numbers
from fractions import Fraction
import numpy as np

from . import engine as E
from . import poly as P
from .poly import Poly, Rat
from .engine import Unsupported, z3

INF = float('inf')


def snap(x):
    """float -> rational: the simple rational the literal stands for."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if x == int(x) and abs(x) < 2 ** 53:
        return int(x)
    f = Fraction(x)
    g = f.limit_denominator(3 * 10 ** 6)
    if abs(g - f) <= abs(f) * Fraction(5, 10 ** 16):
        return g
    g = Fraction(repr(x))
    if len(repr(x).split('e')[0].replace('.', '').lstrip('-0')) <= 12:
        return g
    gi = (1 / f).limit_denominator(3 * 10 ** 6)
    if gi != 0 and abs(1 / gi - f) <= abs(f) * Fraction(5, 10 ** 16):
        return 1 / gi
    return f


_PIMULT = {math.pi: Fraction(1), 2 * math.pi: Fraction(2), math.pi / 2: Fraction(1, 2),
           -math.pi: Fraction(-1), -2 * math.pi: Fraction(-2), 4 * math.pi: Fraction(4),
           math.sqrt(2): None}


def real_rat(x):
    if isinstance(x, float) and x in _PIMULT and _PIMULT[x] is not None:
        return Rat(Poly({((E.eng().pi().id, 1),): _PIMULT[x]}))
    if isinstance(x, (float, np.floating)):
        if x != x or x in (INF, -INF):
            raise Unsupported('non-finite float in symbolic arithmetic')
        if float(x) in _PIMULT and _PIMULT[float(x)] is not None:
            return Rat(Poly({((E.eng().pi().id, 1),): _PIMULT[float(x)]}))
    return Rat(Poly.const(snap(x)))


NUM = (int, float, complex, Fraction, np.number, np.bool_)


def lift(x):
    """python/numpy number -> Sym"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return Sym(Rat.const(1 if bool(x) else 0))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return Sym(real_rat(float(x.real)))
        return Sym(real_rat(float(x.real)), real_rat(float(x.imag)))
    if isinstance(x, NUM):
        return Sym(real_rat(x))
    raise Unsupported('cannot lift %r' % type(x))


def is_inf(x):
    return isinstance(x, (float, np.floating)) and not isinstance(x, Sym) and x in (INF, -INF)


def is_nan(x):
    return isinstance(x, (float, np.floating)) and x != x


def nonfinite(x):
    if isinstance(x, (complex, np.complexfloating)):
        return nonfinite(float(x.real)) or nonfinite(float(x.imag))
    return isinstance(x, (float, np.floating)) and (x != x or x in (INF, -INF))


class SymBool:
    __slots__ = ('f', 'ids')

    def __init__(self, f, ids):
        self.f = f
        self.ids = ids

    def __bool__(self):
        if isinstance(self.f, bool):
            return self.f
        return E.eng().decide(self.f, self.ids)

    def _c(self, o):
        if isinstance(o, SymBool):
            return o
        return SymBool(bool(o), set())

    @staticmethod
    def _z(f):
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def __and__(self, o):
        o = self._c(o)
        if isinstance(self.f, bool):
            return o if self.f else self
        if isinstance(o.f, bool):
            return self if o.f else o
        return SymBool(z3.And(self.f, o.f), self.ids | o.ids)
    __rand__ = __and__

    def __or__(self, o):
        o = self._c(o)
        if isinstance(self.f, bool):
            return self if self.f else o
        if isinstance(o.f, bool):
            return o if o.f else self
        return SymBool(z3.Or(self.f, o.f), self.ids | o.ids)
    __ror__ = __or__

    def __invert__(self):
        if isinstance(self.f, bool):
            return SymBool(not self.f, self.ids)
        return SymBool(z3.Not(self.f), self.ids)

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    # arithmetic on booleans (sum of a mask, mask * number)
    def __add__(self, o):
        return int(bool(self)) + (int(bool(o)) if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __mul__(self, o):
        return o * int(bool(self))
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return id(self)

    def __sub__(self, o):
        return int(bool(self)) - (int(bool(o)) if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - int(bool(self))

    def logical_not(self):
        return not bool(self)


class SymBit(SymBool):
    """an integer 0/1 that is still undecided (a boolean array cast to int)"""
    __slots__ = ()

    def __and__(self, o):
        r = SymBool.__and__(self, o if isinstance(o, (bool, np.bool_, SymBool)) else _bit(o))
        return SymBit(r.f, r.ids)
    __rand__ = __and__

    def __or__(self, o):
        r = SymBool.__or__(self, o if isinstance(o, (bool, np.bool_, SymBool)) else _bit(o))
        return SymBit(r.f, r.ids)
    __ror__ = __or__

    def __invert__(self):
        return ~int(bool(self))

    def __eq__(self, o):
        return int(bool(self)) == (int(bool(o)) if isinstance(o, SymBool) else o)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return int(self) < o

    def __gt__(self, o):
        return int(self) > o

    def __le__(self, o):
        return int(self) <= o

    def __ge__(self, o):
        return int(self) >= o

    def __hash__(self):
        return id(self)


def _bit(o):
    if o in (0, 1):
        return bool(o)
    raise E.Unsupported('bit operation with an integer other than 0 and 1')


def cmp(a, b, op):
    """symbolic comparison of numbers; op in lt le gt ge eq ne"""
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
                'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[op]()
    for x, y, flip in ((a, b, False), (b, a, True)):
        if nonfinite(y) and not isinstance(y, Sym):
            if y != y:
                return op == 'ne'
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            less = (y == INF)                     # x < y ?
            if flip:
                less = not less
            return less if op in ('lt', 'le') else not less
    try:
        a, b = lift(a), lift(b)
    except Unsupported:
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        raise
    e = E.eng()
    if op in ('eq', 'ne'):
        d = a - b
        f, ids = e.cmp_formula(d.re, 'eq')
        r = SymBool(f, ids)
        if d.im is not None:
            f, ids = e.cmp_formula(d.im, 'eq')
            r = r & SymBool(f, ids)
        return _simplify(r if op == 'eq' else ~r)
    if a.im is not None or b.im is not None:
        # numpy orders complex numbers lexicographically
        if a.im is not None and b.im is not None and (a - b).im is None:
            pass
        else:
            eq = _sb(cmp(a.real, b.real, 'eq'))
            strict = _sb(cmp(a.real, b.real, 'lt' if op in ('lt', 'le') else 'gt'))
            return _simplify(strict | (eq & _sb(cmp(a.imag, b.imag, op))))
    ra, rb = a.re, b.re
    if op in ('gt', 'ge'):
        ra, rb = rb, ra
        op = 'lt' if op == 'gt' else 'le'
    f, ids = e.cmp_formula(ra - rb, op)
    return _simplify(SymBool(f, ids))


def _sb(x):
    return x if isinstance(x, SymBool) else SymBool(bool(x), set())


def _simplify(b):
    if isinstance(b, SymBool) and isinstance(b.f, bool):
        return b.f
    return b


# nn marks a value known not to be negative (True), or holds the factors any
# of which still has to be multiplied to make it a value that is not negative
def _nn_add(a, b):
    if b.re.is_zero():
        return a.nn
    if a.re.is_zero():
        return b.nn
    if a.nn is True:
        if b.nn is True or (b.re.is_const() and b.re.const_value() > 0):
            return True
    elif b.nn is True and a.re.is_const() and a.re.const_value() > 0:
        return True
    return None


def _nn_const(r):
    return r.is_const() and r.const_value() >= 0


def _nn_mul(a, b):
    p, q = a.re, b.re
    if a is b or p is q:
        return True
    x, y = a.nn, b.nn
    if x is not True and _nn_const(p):
        x = True
    if y is not True and _nn_const(q):
        y = True
    if x is True and y is True:
        return True
    if x is None and y is None:
        return None
    if x is True:
        return (q,) if y is None else ((q,) + y)[:3]
    if y is True:
        return (p,) if x is None else ((p,) + x)[:3]
    for f in x or ():
        if f is q or f.key() == q.key():
            return True
    for f in y or ():
        if f is p or f.key() == p.key():
            return True
    for f in x or ():
        for g in y or ():
            if f.is_const() and g.is_const() and f.const_value() * g.const_value() > 0:
                return True
    return None


class Sym:
    # nn: True for values built as sums of squares (never negative whatever
    # the inputs), or the key of a factor that makes the value one
    __slots__ = ('re', 'im', 'nn')
    __array_priority__ = 1000

    def __init__(self, re, im=None, nn=None):
        self.re = re
        self.nn = nn
        self.im = im if (im is not None and not im.is_zero()) else None

    # ---- numpy protocol -------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npsym
        return npsym.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npsym
        return npsym.array_function(func, args, kw)

    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        # every symbolic scalar stands for a float64 / complex128
        return np.dtype(complex) if self.im is not None else np.dtype(float)

    # ---- structure ------------------------------------------------------
    @property
    def real(self):
        return Sym(self.re)

    @property
    def imag(self):
        return Sym(self.im if self.im is not None else Rat(P.ZERO))

    def conjugate(self):
        return Sym(self.re, -self.im) if self.im is not None else self
    conj = conjugate

    def is_const(self):
        return self.re.is_const() and (self.im is None)

    def const_value(self):
        return self.re.const_value()

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        from . import npsym
        return npsym.cast_scalar(self, t)

    def any(self):
        return bool(self)
    all = any

    def sum(self, *a, **k):
        return self
    mean = sum

    def flatten(self):
        from . import npsym
        return npsym.mk([self])

    def tolist(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # ---- arithmetic -----------------------------------------------------
    def __neg__(self):
        return Sym(-self.re, -self.im if self.im is not None else None)

    def __pos__(self):
        return self

    def __add__(self, o):
        if type(o) is not Sym:
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
            if nonfinite(o):
                return o
            o = lift(o)
        re = self.re + o.re
        if self.im is None and o.im is None:
            return Sym(re, None, _nn_add(self, o))
        if self.im is None:
            im = o.im
        elif o.im is None:
            im = self.im
        else:
            im = self.im + o.im
        return Sym(re, im)
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is not Sym:
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
            if nonfinite(o):
                return -o
            o = lift(o)
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if nonfinite(o):
            return o
        return lift(o) + (-self)

    def __mul__(self, o):
        if type(o) is not Sym:
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
            if nonfinite(o):
                return _times_inf(self, o)
            o = lift(o)
        a, b, c, d = self.re, self.im, o.re, o.im
        if b is None and d is None:
            return Sym(a * c, None, _nn_mul(self, o))
        if b is None:
            return Sym(a * c, a * d)
        if d is None:
            return Sym(a * c, b * c)
        return Sym(a * c - b * d, a * d + b * c)
    __rmul__ = __mul__

    def inv(self):
        if self.im is None:
            if self.re.is_const():
                c = self.re.const_value()
                return Sym(Rat(Poly.const(Fraction(1) / c)))
            return Sym(_ratinv(self.re), None, True if self.nn is True else None)
        if self.re.is_zero():
            return Sym(Rat(P.ZERO), -_ratinv(self.im))
        q = _ratinv(self.re * self.re + self.im * self.im)
        return Sym(self.re * q, -(self.im * q))

    def __truediv__(self, o):
        if type(o) is not Sym:
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
            if nonfinite(o):
                return Sym(Rat(P.ZERO)) if o == o else o
            o = lift(o)
        if o.is_zero():
            if self.is_zero():
                return float('nan')
            if self.is_const():
                return math.copysign(INF, self.const_value())
            raise Unsupported('division of a symbolic value by exact zero')
        if self.im is None and o.im is None and o.re.is_const():
            return Sym(self.re / o.re, None, self.nn if o.re.const_value() > 0 else None)
        return self * o.inv()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if nonfinite(o):
            return _times_inf(self, o)
        return lift(o) / self

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        return self - (self / o).floor() * o

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        q = (self / o).floor()
        return q, self - q * o

    def is_zero(self):
        return self.im is None and self.re.is_zero()

    def __pow__(self, k, mod=None):
        if isinstance(k, np.ndarray):
            if k.ndim:
                return NotImplemented
            k = k.item()
        if isinstance(k, Sym):
            if not k.is_const():
                # a symbolic exponent is only modelled for x**1 / x**0 patterns
                return sym_pow(self, k)
            k = k.const_value()
        k = snap(k)
        if isinstance(k, int):
            if k == 0:
                return lift(1)
            if k < 0:
                return (self ** (-k)).inv()
            r = None
            b = self
            while k:
                if k & 1:
                    r = b if r is None else r * b
                k >>= 1
                if k:
                    b = b * b
            return r
        if k == Fraction(1, 2):
            return self.sqrt()
        if k == Fraction(-1, 2):
            return self.sqrt().inv()
        if k.denominator == 2:
            return self.sqrt() ** int(2 * k)
        return sym_pow(self, lift(k))

    def __rpow__(self, o):
        return sym_pow(lift(o), self)

    def __abs__(self):
        if self.im is None:
            return abs_real(self)
        if self.re.is_zero():
            return abs_real(Sym(self.im))
        return sqrt_real(Sym(self.re * self.re + self.im * self.im), nonneg=True)

    def fabs(self):
        return abs(self)

    def sqrt(self):
        if self.im is not None:
            raise Unsupported('sqrt of complex')
        r = sqrt_real(self, nonneg=self.nn is True)
        if isinstance(r, Sym):
            r.nn = True
        return r

    def square(self):
        return self * self

    def exp(self):
        return sym_exp(self)

    def expm1(self):
        return sym_exp(self) - 1

    def exp2(self):
        return sym_exp(self * sym_log(lift(2)))

    def log2(self):
        return sym_log(self) / sym_log(lift(2))

    def cos(self):
        c, s = cis(self.re)
        return Sym(c)

    def sin(self):
        c, s = cis(self.re)
        return Sym(s)

    def tan(self):
        c, s = cis(self.re)
        return Sym(s) / Sym(c)

    def log(self):
        return sym_log(self)

    def log10(self):
        return sym_log(self) / sym_log(lift(10))

    def arctan(self):
        return ufun('arctan', self)

    def tanh(self):
        e = sym_exp(self * 2)
        return (e - 1) / (e + 1)

    def deg2rad(self):
        return self * Sym(Rat(Poly.var(E.eng().pi().id))) / 180

    # ---- comparisons ----------------------------------------------------
    def __lt__(self, o):
        return _arr(self, o) or cmp(self, o, 'lt')

    def __le__(self, o):
        return _arr(self, o) or cmp(self, o, 'le')

    def __gt__(self, o):
        return _arr(self, o) or cmp(self, o, 'gt')

    def __ge__(self, o):
        return _arr(self, o) or cmp(self, o, 'ge')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return _arr(self, o) or cmp(self, o, 'eq')

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return _arr(self, o) or cmp(self, o, 'ne')

    def __hash__(self):
        if self.is_const():
            return hash(self.const_value())
        return id(self)

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions ----------------------------------------------------
    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        if self.im is None and not self.re.d and \
                all(E.eng().vars[v].kind == 'const' for v in self.re.vars()):
            return float(self.re.eval({v: E.eng().vars[v].val for v in self.re.vars()}))
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        if self.re.is_const() and (self.im is None or self.im.is_const()):
            return complex(float(self.re.const_value()),
                           float(self.im.const_value()) if self.im is not None else 0.0)
        raise Unsupported('complex() of a symbolic value')

    def __int__(self):
        if self.im is not None:
            raise TypeError("can't convert complex to int")
        if self.is_const():
            return int(self.const_value())
        return trunc_fork(self)
    __trunc__ = __int__

    def __index__(self):
        if self.is_const():
            c = self.const_value()
            if isinstance(c, int):
                return c
        raise TypeError('symbolic float used as an index')

    def __floor__(self):
        return floor_fork(self)

    def __ceil__(self):
        return -floor_fork(-self)

    def __round__(self, nd=None):
        if nd:
            return Sym(Rat.const(Fraction(1, 10 ** nd))) * round_fork(self * 10 ** nd)
        r = round_fork(self)
        return r if nd is None else lift(r)

    def floor(self):
        return lift(floor_fork(self))

    def ceil(self):
        return lift(-floor_fork(-self))

    def rint(self):
        return lift(round_fork(self))

    def trunc(self):
        return lift(int(self))

    def is_integer(self):
        return self.is_const() and isinstance(self.const_value(), int)

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        names = [v.name for v in E.eng().vars]
        s = self.re.n.show(names)
        if len(s) > 200:
            s = s[:200] + '...'
        return 'Sym(%s%s%s)' % (s, ' / ..' if self.re.d else '', ' + i..' if self.im is not None else '')

    def log1p(self):
        return sym_log(self + 1)


def _arr(a, o):
    """comparison with an array -> defer to numpy (returned as NotImplemented
    equivalent)"""
    if isinstance(o, np.ndarray) and o.ndim:
        raise Unsupported('scalar/array comparison reached the scalar')
    return False


def _times_inf(s, o):
    if o != o:
        return o
    if s.im is None:
        if cmp(s, 0, 'gt'):
            return o
        if cmp(s, 0, 'lt'):
            return -o
    return float('nan')


def _ratinv(r):
    E.eng().side_nonzero = getattr(E.eng(), 'side_nonzero', 0) + 1
    return r.inv()


# --------------------------------------------------------------------- atoms
def _ratkey(r):
    return (r.n.key(), frozenset((k, e) for k, (p, e) in r.d.items()))


def _sqfree_int(n):
    """n = s*s*r"""
    s, r, f = 1, n, 2
    while f * f <= r and f < 2000:
        while r % (f * f) == 0:
            r //= f * f
            s *= f
        f += 1
    q = math.isqrt(r)
    if q * q == r:
        return s * q, 1
    return s, r


def sqrt_real(x, nonneg=False):
    e = E.eng()
    r = x.re
    if r.is_zero():
        return x
    n = r.n
    outn, outd = P.ONE, Rat(P.ONE)
    # move odd denominator factors to the numerator
    den = Rat(P.ONE)
    for k, (q, ex) in r.d.items():
        h = (ex + 1) // 2
        if ex % 2:
            n = n * q
        den = den * _abs_poly(q) ** h
    # content
    cont = n.mono_content()
    for v, ex in cont:
        h = ex // 2
        if h:
            outd = outd * _abs_poly(Poly.var(v)) ** h
            n = n.div_mono(((v, 2 * h),))
    _, lc = n.lead()
    if n.is_const() or True:
        # rational content of the polynomial
        g = _content(n)
        n = n.scale(Fraction(1) / g)
        a, b = Fraction(g).numerator, Fraction(g).denominator
        s1, r1 = _sqfree_int(a)
        s2, r2 = _sqfree_int(b)
        # sqrt(a/b) = s1*sqrt(r1) / (s2*sqrt(r2)) = s1*sqrt(r1*r2)/(s2*r2)
        s3, rr = _sqfree_int(r1 * r2)
        outd = outd * Rat.const(Fraction(s1 * s3, s2 * r2))
        if n.is_const():
            if n.const_value() < 0:
                return float('nan')
            n2 = Poly.const(rr)
        else:
            n2 = n.scale(rr)
    else:
        n2 = n
    if n2.is_const():
        c = n2.const_value()
        if c < 0:
            return float('nan')
        if c == 1:
            root = Rat(P.ONE)
        else:
            v = e.alg('sqrt%s' % c, Poly.const(c), math.sqrt(c))
            root = Rat(Poly.var(v.id))
    else:
        if nonneg:
            e.poscache[('nonneg', n2.key())] = True
        # perfect square of a polynomial?
        ps = _poly_sqrt(n2)
        if ps is not None:
            root = _abs_poly(ps)
        else:
            key = ('sqrt', n2.key())
            v = e.atoms.get(key)
            if v is None:
                neg = not nonneg and not e.known_pos(n2) and not _known_nonneg(n2)
                if neg:
                    # real code would produce nan for a negative argument; the
                    # argument's sign becomes part of the path
                    f, ids = e.cmp_formula(Rat(n2), 'lt')
                    if bool(_sb(_simplify(SymBool(f, ids)))):
                        return float('nan')
                v = e.new_var('sq!%d' % len(e.atoms), 'atom')
                v.cons.append(v.z * v.z == e.zpoly(n2))
                v.cons.append(v.z >= 0)
                v.deps |= n2.vars()
                P.RULES[v.id] = n2
                v.pos = not nonneg and e.known_pos(n2)
                e.atoms[key] = v
            elif not nonneg and not e.known_pos(n2) and not _known_nonneg(n2):
                f, ids = e.cmp_formula(Rat(n2), 'lt')
                if bool(_sb(_simplify(SymBool(f, ids)))):
                    return float('nan')
            root = Rat(Poly.var(v.id))
    return Sym(outd * root * (den.inv() if not den.is_const() else Rat.const(Fraction(1) / den.const_value())))


def _known_nonneg(p):
    """sum of squares pattern / solver check"""
    e = E.eng()
    key = ('nonneg', p.key())
    r = e.poscache.get(key)
    if r is None:
        ok = all(c > 0 and all(ex % 2 == 0 or e.vars[v].pos for v, ex in m)
                 for m, c in p.t.items())
        if not ok:
            s = e._solver(min(e.feas_ms, 800))
            s.add(*e.background(p.vars()))
            s.add(e.zpoly(p) < 0)
            ok = e._check(s) == z3.unsat
        e.poscache[key] = ok
        r = ok
    return r


def _content(p):
    g = None
    num = den = None
    for c in p.t.values():
        f = Fraction(c)
        if num is None:
            num, den = abs(f.numerator), f.denominator
        else:
            num = math.gcd(num, abs(f.numerator))
            den = den * f.denominator // math.gcd(den, f.denominator)
    return Fraction(num, den)


def _poly_sqrt(p):
    """polynomial q with q*q == p, or None"""
    if len(p.t) > 60:
        return None
    m, c = p.lead()
    if any(e % 2 for v, e in m) or c < 0:
        return None
    s, r = _sqfree_int(Fraction(c).numerator)
    s2, r2 = _sqfree_int(Fraction(c).denominator)
    if r != 1 or r2 != 1:
        return None
    lm = tuple((v, e // 2) for v, e in m)
    lc = P._cf(Fraction(s, s2))
    q = Poly({lm: lc})
    rem = p - q * q
    n = 0
    while rem.t and n < 40:
        n += 1
        rm, rc = rem.lead()
        d = P.mono_div(rm, lm)
        if d is None:
            return None
        t = Poly({d: P._cf(Fraction(rc) / (2 * lc))})
        rem = rem - q * t - q * t - t * t
        q = q + t
        if P._lexkey(d) >= P._lexkey(lm):
            return None
    return q if not rem.t else None


def _abs_poly(p):
    """|p| as Rat"""
    e = E.eng()
    if e.known_pos(p) or _known_nonneg(p):
        return Rat(p)
    if e.known_pos(-p) or _known_nonneg(-p):
        return Rat(-p)
    key = ('abs', p.key())
    f, ids = e.cmp_formula(Rat(p), 'lt')
    if bool(_sb(_simplify(SymBool(f, ids)))):
        return Rat(-p)
    return Rat(p)


def abs_real(x):
    e = E.eng()
    r = x.re
    if r.is_const():
        return Sym(Rat.const(abs(r.const_value())))
    n = e.signed_num(r)
    if n.is_const():
        return x if n.const_value() >= 0 else -x
    # decide known signs without forking, otherwise introduce |.| as sqrt(x*x)
    if e.known_pos(n) or _known_nonneg(n):
        return x
    if e.known_pos(-n) or _known_nonneg(-n):
        return -x
    # |num| atom with rule a*a -> num*num
    num = r.n
    _, lc = num.lead()
    num1 = num.scale(Fraction(1) / lc)
    key = ('absatom', num1.key())
    v = e.atoms.get(key)
    if v is None:
        v = e.new_var('abs!%d' % len(e.atoms), 'atom')
        z = e.zpoly(num1)
        v.cons.append(v.z == z3.If(z >= 0, z, -z))
        v.deps |= num1.vars()
        P.RULES[v.id] = num1 * num1
        e.atoms[key] = v
    den = Rat(P.ONE)
    for k, (q, ex) in r.d.items():
        if ex % 2 == 0 or e.known_pos(q):
            den = den * Rat(q) ** ex
        elif e.known_pos(-q):
            den = den * Rat(-q) ** ex
        else:
            den = den * abs_real(Sym(Rat(q))).re * Rat(q) ** (ex - 1)
    out = Rat(Poly.var(v.id).scale(abs(lc)))
    return Sym(out * den.inv() if not den.is_const() else out / den)


def sym_max(xs):
    """maximum as a fresh value defined by the solver (no forking)"""
    return _extreme(xs, True)


def sym_min(xs):
    return _extreme(xs, False)


def _extreme(xs, mx):
    xs = [x for x in xs]
    if any(is_nan(x) for x in xs):
        return float('nan')
    if all(not isinstance(x, Sym) for x in xs):
        return max(xs) if mx else min(xs)
    xs = [x for x in xs if not is_inf(x) or ((x > 0) == mx)]
    for x in xs:
        if is_inf(x):
            return x
    xs = [lift(x) for x in xs]
    uniq = {}
    for x in xs:
        uniq.setdefault(_ratkey(x.re), x)
    xs = list(uniq.values())
    if len(xs) == 1:
        return xs[0]
    # constants collapse
    cs = [x for x in xs if x.is_const()]
    if len(cs) == len(xs):
        f = max if mx else min
        return f(cs, key=lambda s: s.const_value())
    e = E.eng()
    # pairwise certain dominance would need the solver; pick the winner by fork
    k = argext(xs, mx)
    return xs[k]


def argext(xs, mx):
    """index of the first maximum/minimum, as an n-way branch"""
    e = E.eng()
    n = len(xs)
    for i, x in enumerate(xs):
        if is_nan(x):
            return i
    if n == 1:
        return 0
    fs, ids = [], set()
    for i in range(n):
        cs = []
        dead = False
        for j in range(n):
            if i == j:
                continue
            # strict before, weak after (first occurrence)
            op = ('gt' if j < i else 'ge') if mx else ('lt' if j < i else 'le')
            b = cmp(xs[i], xs[j], op)
            if isinstance(b, SymBool):
                cs.append(b.f)
                ids |= b.ids
            elif not b:
                dead = True
                break
        if dead:
            fs.append(z3.BoolVal(False))
        else:
            fs.append(z3.And(*cs) if cs else z3.BoolVal(True))
    live = [i for i in range(n) if not z3.is_false(fs[i])]
    if len(live) == 1:
        return live[0]
    return e.choose(fs, ids)


def _extent(x):
    return x


def floor_fork(x):
    """concretise floor(x) by branching over its possible integer values"""
    e = E.eng()
    if x.im is not None:
        raise Unsupported('floor of complex')
    if x.is_const():
        return math.floor(x.const_value())
    if all(e.vars[v].kind == 'const' for v in x.re.vars()):
        return math.floor(float(x))
    tries = 0
    zr, ids = _zrat(x.re)
    while True:
        tries += 1
        if tries > 40:
            raise Unsupported('floor of an unbounded symbolic value')
        # replay of a prefix must produce the same sequence of candidates
        ck = ('floor', tuple(e.trail), _ratkey(x.re))
        m = e.feas_cache.get(ck)
        if m is None:
            s = e._solver(4 * e.feas_ms)
            allids = e.pcsyms | ids
            s.add(*e.background(allids))
            s.add(*e.pc)
            res = e._check(s)
            if res == z3.unsat:
                raise E.Infeasible()
            if res != z3.sat:
                raise Unsupported('cannot concretise floor()')
            m = _floor_candidate(e, s, zr, tries)
            e.feas_cache[ck] = m
        b1 = cmp(x, m, 'ge')
        b2 = cmp(x, m + 1, 'lt')
        if bool(_simplify(_sb(b1) & _sb(b2))):
            return m


def _floor_candidate(e, s, zr, tries):
    mod = s.model()
    v = mod.eval(zr, model_completion=True)
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
    elif z3.is_algebraic_value(v):
        a = v.approx(20)
        f = Fraction(a.numerator_as_long(), a.denominator_as_long())
    else:
        raise Unsupported('cannot evaluate floor() argument')
    return math.floor(f)


def _zrat(r):
    e = E.eng()
    z = e.zpoly(r.n)
    for k, (q, ex) in r.d.items():
        for _ in range(ex):
            z = z / e.zpoly(q)
    return z, r.vars()


def trunc_fork(x):
    if bool(cmp(x, 0, 'ge')):
        return floor_fork(x)
    return -floor_fork(-x)


def round_fork(x):
    if x.is_const():
        return round(Fraction(x.const_value()))
    f = floor_fork(x + Fraction(1, 2))
    # ties to even
    if f % 2 and bool(cmp(x + Fraction(1, 2), f, 'eq')):
        return f - 1
    return f


# ------------------------------------------------------- exp / trigonometry
def _alg_rat(name, square, approx):
    v = E.eng().alg(name, square, approx)
    return Rat(Poly.var(v.id))


def root2():
    return _alg_rat('sqrt2', Poly.const(2), math.sqrt(2))


def root3():
    return _alg_rat('sqrt3', Poly.const(3), math.sqrt(3))


def root5():
    return _alg_rat('sqrt5', Poly.const(5), math.sqrt(5))


def _cos_sin_pi(q):
    """exact (cos(q*pi), sin(q*pi)) for rational q, as Rat or None"""
    q = Fraction(q) % 2
    C = Rat.const
    sgn_s = 1
    if q > 1:
        q = 2 - q
        sgn_s = -1
    sgn_c = 1
    if q > Fraction(1, 2):
        q = 1 - q
        sgn_c = -1
    swap = False
    if q > Fraction(1, 4):
        q = Fraction(1, 2) - q
        swap = True
    if q == 0:
        c, s = C(1), C(0)
    elif q == Fraction(1, 4):
        c = root2() * C(Fraction(1, 2))
        s = c
    elif q == Fraction(1, 6):
        c = root3() * C(Fraction(1, 2))
        s = C(Fraction(1, 2))
    elif q == Fraction(1, 12):
        r2, r3 = root2(), root3()
        c = (r2 * r3 + r2) * C(Fraction(1, 4))
        s = (r2 * r3 - r2) * C(Fraction(1, 4))
    elif q == Fraction(1, 8):
        r2 = root2()
        # cos(pi/8) = sqrt(2+sqrt2)/2 =: c8,  sin = c8*(sqrt2 - 1)
        c = _alg_rat('cos_pi_8', (Rat.const(Fraction(1, 2)) + r2 * C(Fraction(1, 4))).n,
                     math.cos(math.pi / 8))
        s = c * (r2 - C(1))
    elif q.denominator in (5, 10, 20) and q.denominator != 20:
        r5 = root5()
        # cos(pi/5) = (1+r5)/4 ; sin(2pi/5)=t, t^2=(5+r5)/8 ; sin(pi/5)=t/(2cos(pi/5))
        t = _alg_rat('sin_2pi_5', (C(Fraction(5, 8)) + r5 * C(Fraction(1, 8))).n,
                     math.sin(2 * math.pi / 5))
        c36 = (C(1) + r5) * C(Fraction(1, 4))
        # 1/(2 c36) = 2/(1+r5) = (r5-1)/2
        s36 = t * (r5 - C(1)) * C(Fraction(1, 2))
        c72 = (r5 - C(1)) * C(Fraction(1, 4))
        if q == Fraction(1, 5):
            c, s = c36, s36
        elif q == Fraction(1, 10):
            c, s = t, c72          # cos 18 = sin 72, sin 18 = cos 72
        else:
            return None
    else:
        return None
    if swap:
        c, s = s, c
    if sgn_c < 0:
        c = -c
    if sgn_s < 0:
        s = -s
    return c, s


def _split_terms(r):
    """Rat -> list of (monomial, coeff, den dict)   r = sum coeff*mono / den"""
    return [(m, Fraction(c)) for m, c in r.n.t.items()], r.d


def _cpow(c, s, k):
    rc, rs = Rat(P.ONE), Rat(P.ZERO)
    bc, bs = c, s
    while k:
        if k & 1:
            rc, rs = rc * bc - rs * bs, rc * bs + rs * bc
        k >>= 1
        if k:
            bc, bs = bc * bc - bs * bs, (bc * bs) * Rat.const(2)
    return rc, rs


def cis(r):
    """(cos r, sin r) for a real rational function r"""
    e = E.eng()
    rc, rs = Rat(P.ONE), Rat(P.ZERO)
    if r.is_zero():
        return rc, rs
    pid = e.pi().id
    terms, den = _split_terms(r)
    for m, c in sorted(terms, key=lambda t: P._lexkey(t[0])):
        if m == ((pid, 1),) and not den:
            ex = _cos_sin_pi(c)
            if ex is not None:
                c1, s1 = ex
            else:
                cc, ss = _trig_atom(m, den, Fraction(abs(c)))
                c1, s1 = (cc, ss) if c > 0 else (cc, -ss)
        else:
            # multiples of one base angle become powers
            k = abs(c.numerator)
            if k <= 64:
                b, bs = _trig_atom(m, den, Fraction(1, c.denominator))
                c1, s1 = _cpow(b, bs, k)
            else:
                c1, s1 = _trig_atom(m, den, abs(c))
            if c < 0:
                s1 = -s1
        rc, rs = rc * c1 - rs * s1, rc * s1 + rs * c1
    return rc, rs


def _denkey(d):
    return frozenset((k, ex) for k, (p, ex) in d.items())


def _trig_atom(m, den, c):
    e = E.eng()
    key = ('trig', m, _denkey(den), c)
    a = e.atoms.get(key)
    if a is None:
        i = len(e.atoms)
        vc = e.new_var('cos!%d' % i, 'atom')
        vs = e.new_var('sin!%d' % i, 'atom')
        vs.cons.append(vs.z * vs.z + vc.z * vc.z == 1)
        vc.cons += [vc.z >= -1, vc.z <= 1]
        vs.deps.add(vc.id)
        P.RULES[vs.id] = Poly.const(1) - Poly({((vc.id, 2),): 1})
        arg = Rat(Poly({m: c}), den)
        a = (vc, vs)
        e.atoms[key] = a
        e.trig_args = getattr(e, 'trig_args', {})
        e.trig_args[vc.id] = arg
    vc, vs = a
    return Rat(Poly.var(vc.id)), Rat(Poly.var(vs.id))


def sym_exp(z):
    re = _exp_real(z.re)
    if z.im is None:
        return Sym(re)
    c, s = cis(z.im)
    return Sym(re * c, re * s)


def _exp_real(r):
    e = E.eng()
    out = Rat(P.ONE)
    if r.is_zero():
        return out
    terms, den = _split_terms(r)
    for m, c in sorted(terms, key=lambda t: P._lexkey(t[0])):
        k = abs(c.numerator)
        if k > 64:
            base, k = abs(c), 1
        else:
            base = Fraction(1, c.denominator)
        key = ('exp', m, _denkey(den), base)
        v = e.atoms.get(key)
        if v is None:
            v = e.new_var('exp!%d' % len(e.atoms), 'atom')
            v.pos = True
            v.cons.append(v.z > 0)
            arg = Rat(Poly({m: base}), den)
            v.deps |= arg.vars()
            zz, ids = _zrat(arg)
            # sound bounds: exp(x) >= 1 + x, sign of x
            v.cons.append(v.z >= 1 + zz)
            v.cons.append(z3.Implies(zz < 0, v.z < 1))
            v.cons.append(z3.Implies(zz > 0, v.z > 1))
            v.cons.append(z3.Implies(zz < 1, v.z * (1 - zz) <= 1))
            e.atoms[key] = v
            e.exp_args = getattr(e, 'exp_args', {})
            e.exp_args[v.id] = arg
        p = Rat(Poly.var(v.id)) ** k
        out = out * (p if c > 0 else p.inv())
    return out


def ufun(name, *args):
    """uninterpreted real function, keyed on its (canonical) argument"""
    e = E.eng()
    key = ('uf', name) + tuple(_ratkey(a.re) + ((_ratkey(a.im),) if a.im is not None else ())
                               for a in args)
    v = e.atoms.get(key)
    if v is None:
        v = e.new_var('%s!%d' % (name, len(e.atoms)), 'atom')
        for a in args:
            v.deps |= a.re.vars()
        e.atoms[key] = v
    return Sym(Rat(Poly.var(v.id)))


def sym_log(x):
    if x.is_const() and x.const_value() == 1:
        return lift(0)
    return ufun('log', x)


def sym_pow(x, k):
    """x**k for non-integer / symbolic k: uninterpreted, with the laws
    x**(k+m) = x**k * x**m for integer m and x**0 = 1, x > 0."""
    e = E.eng()
    if k.im is not None or x.im is not None:
        raise Unsupported('complex power')
    if x.is_const() and x.const_value() == 1:
        return lift(1)
    if k.is_const():
        c = Fraction(k.const_value())
        n = math.floor(c)
        frac = c - n
        if frac == 0:
            return x ** int(n)
        base = _powatom(x, Sym(Rat.const(frac)))
        return base * x ** int(n)
    # split off the constant part of the exponent
    if k.re.d:
        return _powatom(x, k)
    n = k.re.n
    c = Fraction(n.t.get((), 0))
    m = math.floor(c)
    rest = Sym(Rat(n - Poly.const(m)))
    r = _powatom(x, rest)
    return r * x ** int(m) if m else r


def _powatom(x, k):
    e = E.eng()
    key = ('pow', _ratkey(x.re), _ratkey(k.re))
    v = e.atoms.get(key)
    if v is None:
        v = e.new_var('pow!%d' % len(e.atoms), 'atom')
        v.pos = True
        v.cons.append(v.z > 0)
        v.deps |= x.re.vars() | k.re.vars()
        zx, _ = _zrat(x.re)
        zk, _ = _zrat(k.re)
        v.cons.append(z3.Implies(z3.And(zx < 1, zk > 0), v.z < 1))
        v.cons.append(z3.Implies(z3.And(zx > 1, zk > 0), v.z > 1))
        v.cons.append(z3.Implies(zx == 1, v.z == 1))
        v.cons.append(z3.Implies(zk == 0, v.z == 1))
        e.atoms[key] = v
    return Sym(Rat(Poly.var(v.id)))
