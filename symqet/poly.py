"""Exact multivariate polynomials and rational functions over Q.

Polynomials are dicts  monomial -> coefficient, a monomial being a sorted tuple
of (var id, exponent).  Variables may carry a square rule  v*v -> Poly  (used
for algebraic constants such as sqrt(2), for square-root atoms and for
sin(x)**2 -> 1 - cos(x)**2), applied on every multiplication so that polynomial
arithmetic is carried out in the quotient ring.
"""
from fractions import Fraction

RULES = {}       # var id -> Poly, value of var**2


def reset_rules():
    RULES.clear()


def _cf(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    res = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            res.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            res.append(a[i])
            i += 1
        else:
            res.append(b[j])
            j += 1
    if i < la:
        res.extend(a[i:])
    if j < lb:
        res.extend(b[j:])
    return tuple(res)


def mono_div(a, b):
    """a / b or None"""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ("t", "_k")

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._k = None

    @staticmethod
    def const(c):
        c = _cf(c)
        return Poly({(): c}) if c != 0 else Poly()

    @staticmethod
    def var(v):
        return Poly({((v, 1),): 1})

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x == 0:
                    del r[m]
                else:
                    r[m] = _cf(x)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if c == 0:
            return Poly()
        if c == 1:
            return self
        return Poly({m: _cf(x * c) for m, x in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return Poly()
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        if len(a) > len(b):
            a, b = b, a
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                x = get(m)
                r[m] = c1 * c2 if x is None else x + c1 * c2
        r = {m: _cf(c) for m, c in r.items() if c != 0}
        if RULES:
            return _reduce(r)
        return Poly(r)

    def __pow__(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def vars(self):
        s = set()
        for m in self.t:
            for v, _ in m:
                s.add(v)
        return s

    def lead(self):
        """leading monomial in a fixed (lex on tuple) order and coefficient"""
        m = max(self.t, key=_lexkey)
        return m, self.t[m]

    def mono_content(self):
        it = iter(self.t)
        common = dict(next(it))
        for m in it:
            if not common:
                break
            d = dict(m)
            for v in list(common):
                e = d.get(v, 0)
                if e == 0:
                    del common[v]
                elif e < common[v]:
                    common[v] = e
        return tuple(sorted(common.items()))

    def div_mono(self, mono):
        if not mono:
            return self
        return Poly({mono_div(m, mono): c for m, c in self.t.items()})

    def exact_div(self, f):
        """self / f if exact else None"""
        if not self.t:
            return self
        fm, fc = f.lead()
        rem = dict(self.t)
        q = {}
        limit = 4 * len(rem) + 50
        steps = 0
        while rem:
            m = max(rem, key=_lexkey)
            d = mono_div(m, fm)
            if d is None:
                return None
            steps += 1
            if steps > limit:
                return None
            c = Fraction(rem[m]) / fc
            c = _cf(c)
            q[d] = c
            for mm, cc in f.t.items():
                k = mono_mul(mm, d)
                x = rem.get(k, 0) - c * cc
                if x == 0:
                    rem.pop(k, None)
                else:
                    rem[k] = _cf(x)
        return Poly(q)

    def eval(self, env):
        tot = 0
        for m, c in self.t.items():
            x = c
            for v, e in m:
                x = x * env[v] ** e
            tot = tot + x
        return tot

    def show(self, names):
        if not self.t:
            return "0"
        out = []
        for m, c in self.t.items():
            out.append("*".join([str(c)] + [
                names[v] + ("^%d" % e if e > 1 else "") for v, e in m]))
        return " + ".join(out)


def _lexkey(m):
    # graded-free lex order: smaller var id is more significant
    return tuple((-v, e) for v, e in m) + ((1 - 10 ** 9, 0),)


def _lexkey_dense(m):
    return m


def _reduce(r):
    todo = None
    for m in r:
        for v, e in m:
            if e > 1 and v in RULES:
                if todo is None:
                    todo = []
                todo.append(m)
                break
    if todo is None:
        return Poly(r)
    acc = Poly({m: c for m, c in r.items()})
    r = acc.t
    extra = Poly()
    for m in todo:
        c = r.pop(m)
        for i, (v, e) in enumerate(m):
            if e > 1 and v in RULES:
                break
        rest = m[:i] + (((v, 1),) if e % 2 else ()) + m[i + 1:]
        term = Poly({rest: c}) * (RULES[v] ** (e // 2))
        extra = extra + term
    return Poly(r) + extra


ONE = Poly.const(1)
ZERO = Poly()


class Rat:
    """num / prod(f**e); denominators are kept factored.  The factors are
    monic (leading coefficient 1) polynomials without monomial content, or
    single variables."""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}      # key -> (Poly, exp)

    @staticmethod
    def const(c):
        return Rat(Poly.const(c))

    def is_zero(self):
        return self.n.is_zero()

    def is_const(self):
        return self.n.is_zero() or (not self.d and self.n.is_const())

    def const_value(self):
        return self.n.const_value()

    def key(self):
        return (self.n.key(), frozenset((k, e) for k, (p, e) in self.d.items()))

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __add__(self, o):
        if self.n.is_zero():
            return o
        if o.n.is_zero():
            return self
        if not self.d and not o.d:
            return Rat(self.n + o.n)
        if self.d is o.d or self.d == o.d:
            return _cancel(self.n + o.n, self.d)
        l = dict(self.d)
        for k, (p, e) in o.d.items():
            if k not in l or l[k][1] < e:
                l[k] = (p, e)
        n = _cofactor(l, self.d, self.n) + _cofactor(l, o.d, o.n)
        return _cancel(n, l)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.n.is_zero() or o.n.is_zero():
            return Rat(ZERO)
        if not self.d and not o.d:
            return Rat(self.n * o.n)
        a, b = self, o
        # cancel across before multiplying out
        if a.d:
            t = _cancel(b.n, a.d)
            bn, ad = t.n, t.d
        else:
            bn, ad = b.n, a.d
        if b.d:
            t = _cancel(a.n, b.d)
            an, bd = t.n, t.d
        else:
            an, bd = a.n, b.d
        n = an * bn
        d = dict(ad)
        for k, (p, e) in bd.items():
            d[k] = (p, d[k][1] + e) if k in d else (p, e)
        if RULES and d:
            return _cancel(n, d)
        return Rat(n, d)

    def inv(self):
        n = self.n
        if n.is_zero():
            raise ZeroDivisionError
        if n.is_const():
            num = Poly.const(Fraction(1) / n.const_value())
            for k, (p, e) in self.d.items():
                num = num * p ** e
            return Rat(num)
        d = {}
        cont = n.mono_content()
        for v, e in cont:
            p = Poly.var(v)
            d[p.key()] = (p, e)
        n = n.div_mono(cont)
        num = ONE
        if not n.is_const():
            _, lc = n.lead()
            num = Poly.const(Fraction(1) / lc)
            n = n.scale(Fraction(1) / lc)
            d[n.key()] = (n, 1)
        else:
            num = Poly.const(Fraction(1) / n.const_value())
        for k, (p, e) in self.d.items():
            num = num * p ** e
        return _cancel(num, d)

    def __truediv__(self, o):
        if o.is_const():
            c = o.const_value()
            if c == 0:
                raise ZeroDivisionError
            return Rat(self.n.scale(Fraction(1) / c), self.d)
        return self * o.inv()

    def __pow__(self, k):
        if k < 0:
            return self.inv() ** (-k)
        return Rat(self.n ** k, {q: (p, e * k) for q, (p, e) in self.d.items()} if k else {})

    def denpoly(self):
        p = ONE
        for _, (q, e) in self.d.items():
            p = p * q ** e
        return p

    def vars(self):
        s = self.n.vars()
        for _, (q, e) in self.d.items():
            s |= q.vars()
        return s

    def eval(self, env):
        x = self.n.eval(env)
        for _, (q, e) in self.d.items():
            x = x / q.eval(env) ** e
        return x


def _cofactor(l, d, n):
    for k, (p, e) in l.items():
        have = d[k][1] if k in d else 0
        if e > have:
            n = n * p ** (e - have)
    return n


def _cancel(n, d):
    if n.is_zero():
        return Rat(n)
    if not d:
        return Rat(n, d)
    out = None
    for k, (p, e) in d.items():
        ne = e
        if len(p.t) == 1:
            (m,) = p.t
            v = m[0][0]
            k2 = min((dict(mm).get(v, 0) for mm in n.t))
            k2 = min(k2, e)
            if k2:
                n = n.div_mono(((v, k2),))
                ne = e - k2
        else:
            while ne and len(n.t) >= len(p.t) and len(n.t) < 4000:
                q = n.exact_div(p)
                if q is None:
                    break
                n = q
                ne -= 1
        if ne != e:
            if out is None:
                out = dict(d)
            if ne:
                out[k] = (p, ne)
            else:
                del out[k]
    return Rat(n, out if out is not None else d)
