"""P16: resampling to a multiple of the signal frequency."""
import scipy.signal
import z3
from qetpy.utils import _utils as U
from harness.ref import *

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]
BOUNDS = ('frequencies g N and g D with g from 1 to 1000 and coprime N, D of up to 2 (thorough: 3) symbolic primes below 100 '
          'each, with exponents up to 3')
ASSUMPTIONS = ['sympy factorrat returns the prime factorisation', 'scipy.signal.resample_poly is a recorder',
               'int and round are exact']


def integral(c, x):
    """x is an integer: a z3 formula, or True if it is a polynomial with integer
    coefficients in integer variables"""
    r = x.re
    e = c.e
    if r.is_const():
        return r.const_value() == int(r.const_value())
    if not r.d and all(F(k).denominator == 1 for k in r.n.t.values()) and all(e.vars[v].dom for v in r.n.vars()):
        return True
    from symqet.sym import _zrat, SymBool
    z, ids = _zrat(r)
    return SymBool(z3.IsInt(z), ids)


class Code:
    """numbers with a symbolic prime factorisation for the real code"""

    def __init__(self, c, facs, ratio):
        self.c, self.facs, self.ratio, self.n = c, facs, ratio, 0
        self.rounded = []

    def __enter__(self):
        self.old = {k: U.__dict__.get(k) for k in ('int', 'round', 'S', 'factorrat')}
        if self.c.mode == 'sym':
            U.int, U.round, U.S, U.factorrat = self.int, self.round, lambda x: x, self.factors

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                U.__dict__.pop(k, None)
            else:
                U.__dict__[k] = v

    def sym(self, x):
        return hasattr(x, 're') and hasattr(x, 'is_const') and not x.is_const()

    def int(self, x=0):
        if self.sym(x) and integral(self.c, x) is True:
            return x
        return int(x)

    def round(self, x, nd=None):
        if not self.sym(x) or nd is not None:
            return round(x, nd)
        if integral(self.c, x) is True:
            return x
        for y, k in self.rounded:
            if (x - y).is_zero():
                return k
        self.n += 1
        k = self.c.real('round!%d' % self.n)
        self.rounded.append((x, k))
        v = self.c.inputs.pop('round!%d' % self.n)
        v.dom = True
        v.cons.append(z3.IsInt(v.z))
        self.c.assume(2 * (k - x) <= 1)
        self.c.assume(2 * (x - k) <= 1)
        return k

    def factors(self, q, *a, **k):
        self.c.eq('the ratio of the frequencies is factorised', q, self.ratio)
        return dict(self.facs)


def numbers(c, num, den, g):
    """fs, sgfreq, factors of their ratio"""
    ps = [c.integer('p%d' % i, PRIMES) for i in range(len(num))]
    qs = [c.integer('q%d' % i, PRIMES) for i in range(len(den))]
    a = ps + qs
    for i in range(len(a)):
        for j in range(i):
            c.assume(a[i] != a[j])
    g = c.integer('g', range(1, 1001)) if g is None else c.num(g)
    n = d = 1
    for p, k in zip(ps, num):
        n = n * p ** k
    for q, k in zip(qs, den):
        d = d * q ** k
    if c.mode != 'sym':
        g = int(g)
    return g * n, g * d, dict(list(zip(ps, num)) + [(q, -k) for q, k in zip(qs, den)])


def whole(c, name, x, y):
    """x / y is a whole number"""
    if c.mode == 'sym':
        c.true(name, integral(c, c.num(x) / y))
    else:
        c.true(name, int(x) == x and int(x) % int(y) == 0)


def h_factors(c, num, den, g):
    fs, sg, facs = numbers(c, num, den, g)
    kind = c.pick('type', [int, float]) if c.mode != 'sym' else c.pick('type', [0, 1])
    a, b = (fs, sg) if c.mode == 'sym' else (kind(fs), kind(sg))
    with Code(c, facs, c.num(fs) / sg):
        up, down = U.resample_factors(a, b)
    for v in (up, down):
        c.le('positive', 1, v)
        whole(c, 'integers', v, 1)
    if not den:
        c.eq('nothing to do', [up, down], [1, 1])
    whole(c, 'the new rate is a multiple of the signal frequency', fs * up, down * sg)


def h_data(c, num, den, kw):
    fs, sg, facs = numbers(c, num, den, 1)
    seen = []
    x = c.reals('x', 3)
    y = c.reals('y', 4)

    def poly(*a, **k):
        seen.append((a, k))
        return y
    c.stub(scipy.signal.resample_poly, poly)
    with Code(c, facs, c.num(fs) / sg):
        up, down = U.resample_factors(fs, sg)
        got, nfs = U.resample_data(x, fs, sg, **kw)
    c.same('resampled once', len(seen), 1)
    a, k = seen[0]
    names = dict(zip(('x', 'up', 'down', 'axis'), a))
    names.update(k)
    c.eq('the data are resampled', names.pop('x'), x)
    c.eq('by the factors', [names.pop('up'), names.pop('down')], [up, down])
    c.same('along the given axis, the last by default', names, dict(dict(axis=-1), **kw))
    c.eq('resampled data', got, y)
    c.eq('new rate', nfs, c.num(fs) * up / down)


def h_refuse(c):
    for fs, sg in ((2.5, 1), (7, 1.5), (F(7, 2), 2)):
        c.raises('only whole frequencies', ValueError, lambda: U.resample_factors(float(fs), float(sg)))
        c.raises('only whole frequencies', ValueError, lambda: U.resample_data([0., 1.], float(fs), float(sg)))


def jobs(tier):
    big = tier == 'thorough'
    J = []
    A = [((), ()), ((1,), ()), ((2, 1), ()), ((), (1,)), ((), (2,)), ((), (1, 1)), ((1,), (1,)), ((2,), (1,)), ((1,), (2,)),
         ((1, 1), (1,)), ((1,), (1, 1)), ((3,), (2,)), ((1,), (1, 3)), ((2, 1), (2, 1))]
    if big:
        A += [((1,), (3, 1, 2)), ((1, 1, 1), (1,)), ((2, 3, 1), (1, 2)), ((), (2, 2, 1))]
    for n, d in A:
        for g in (1, None):
            J.append(('factors/%s/%s/%s' % (n, d, g), h_factors, dict(num=n, den=d, g=g)))
    for n, d, kw in (((1,), (1,), {}), ((2,), (1,), dict(axis=0)), ((1,), (2,), dict(axis=-1)), ((1, 1), (1,), dict(padtype='line')),
                     ((1,), (), dict(window=('kaiser', 5.0), axis=1))):
        J.append(('data/%s/%s/%s' % (n, d, sorted(kw)), h_data, dict(num=n, den=d, kw=kw)))
    J.append(('refuse', h_refuse, {}))
    return J
