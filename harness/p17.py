"""P17: the IV class."""
import warnings
import numpy
import scipy.optimize
from qetpy.core import _iv as V
from harness.ref import *

warnings.simplefilter('ignore')

BOUNDS = ('1-2 temperatures, 1-2 channels, 2-5 bias points; symbolic currents, load resistances and errors, bias '
          'voltages from a fixed rational grid (symbolic for two-point fits); every form of the load resistance, '
          'index lists, ranges and automatic normal points, NaN padding')
ASSUMPTIONS = ['scipy curve_fit of a straight line is modelled by its exact weighted least-squares solution',
               'fitted slopes and TES currents are not zero']
CF = scipy.optimize.curve_fit
VB = [F(3), F(2), F(5, 4), F(3, 4), F(1, 3)]
ER = [F(1), F(1, 2), F(3, 2), F(2), F(1, 4)]


def steady(c):
    """exact straight-line fits in replays too: scipy's finite differences give
    useless covariances when a parameter is close to zero or fits exactly"""
    def fit(f, x, y, p0=None, sigma=None, absolute_sigma=False, **k):
        x, y = numpy.asarray_chkfinite(x, float), numpy.asarray_chkfinite(y, float)
        n = 2 if p0 is None else len(p0)
        s = numpy.ones(len(y)) if sigma is None else numpy.asarray(sigma, float)
        off = f(x, *[0.0] * n) + 0 * x
        A = numpy.array([f(x, *[float(i == j) for i in range(n)]) - off for j in range(n)]).T / s[:, None]
        r = (y - off) / s
        C = numpy.linalg.inv(A.T @ A)
        p = C @ A.T @ r
        if not absolute_sigma:
            C = C * (numpy.sum((r - A @ p) ** 2) / (len(y) - n))
        return p, C
    if c.mode == 'num':
        c.stub(CF, fit)


def line(x, y, s):
    """weighted straight line: intercept, slope and their variances"""
    w = [1 / (v * v) for v in s]
    S = sum(w[1:], w[0])
    Sx = sum(a * b for a, b in zip(w, x))
    Sy = sum(a * b for a, b in zip(w, y))
    Sxx = sum(a * b * b for a, b in zip(w, x))
    Sxy = sum(a * b * d for a, b, d in zip(w, x, y))
    D = S * Sxx - Sx * Sx
    return (Sxx * Sy - Sx * Sxy) / D, (S * Sxy - Sx * Sy) / D, Sxx / D, S / D


def cells(sh):
    nt, nc = ([1, 1, 1] + list(sh))[-3:-1] if len(sh) < 3 else sh[:2]
    if len(sh) == 1:
        nt = nc = 1
    elif len(sh) == 2:
        nt, nc = 1, sh[0]
    return nt, nc


def at(a, sh, t, ch):
    return a if len(sh) == 1 else a[ch] if len(sh) == 2 else a[t][ch]


def grid(c, sh, vals, jitter=0):
    nt, nc = cells(sh)
    n = sh[-1]
    a = [[[vals[i] * (1 + F(jitter * (t + 2 * ch), 8)) for i in range(n)] for ch in range(nc)] for t in range(nt)]
    b = c.np.array([[[c.num(v) for v in r] for r in q] for q in a])
    return a, b.reshape(sh)


def nonzero(c, v):
    c.assume(v * v > F(1, 100))


def h_iv(c, sh, inds, form, sym):
    steady(c)
    nt, nc = cells(sh)
    n = sh[-1]
    vb, vba = grid(c, sh, VB, 1)
    er, era = grid(c, sh, ER, 0)
    if sym == 'bias':
        vba = c.reals('vb', sh, lo=-5, hi=5)
        vb = [[at(vba, sh, t, ch) for ch in range(nc)] for t in range(nt)]
    if sym == 'err':
        era = c.reals('er', sh, lo=F(1, 10), hi=3)
        er = [[at(era, sh, t, ch) for ch in range(nc)] for t in range(nt)]
    d = c.reals('i', sh, lo=-5, hi=5)
    ve = c.reals('ve', sh, lo=0, hi=2)
    if form == 'scalar':
        rl, rle = c.real('rl', pos=True), c.real('rle', lo=0)
        R = lambda t, ch, i: (rl, rle)
    elif form == 'chan':
        rl, rle = c.reals('rl', nc, pos=True), c.reals('rle', nc, lo=0)
        R = lambda t, ch, i: (rl[ch], rle[ch])
    elif form == 'temp':
        rl, rle = c.reals('rl', (nt, nc), pos=True), c.reals('rle', (nt, nc), lo=0)
        R = lambda t, ch, i: (rl[t][ch], rle[t][ch])
    else:
        rl, rle = c.reals('rl', (nt, nc, n), pos=True), c.reals('rle', (nt, nc, n), lo=0)
        R = lambda t, ch, i: (rl[t][ch][i], rle[t][ch][i])
    fits = {}
    for t in range(nt):
        for ch in range(nc):
            x, y, s = vb[t][ch], at(d, sh, t, ch), er[t][ch]
            if sym == 'bias':
                for i in inds:
                    for j in inds:
                        if i < j:
                            nonzero(c, x[i] - x[j])
            b, m, vb_, vm = line([x[i] for i in inds], [y[i] for i in inds], [s[i] for i in inds])
            nonzero(c, m)
            for i in range(n):
                nonzero(c, y[i] - b)
            fits[t, ch] = b, m, vb_, vm
    o = V.IV(d, era, vba, ve, rl, rle, ['c%d' % i for i in range(nc)], normalinds=list(inds))
    o.calc_iv()
    for a in ('ioff', 'ioff_err', 'rfit', 'rfit_err', 'rnorm', 'rnorm_err'):
        c.same('shape of ' + a, tuple(getattr(o, a).shape), (nt, nc))
    for a in ('ites', 'ites_err', 'r0', 'r0_err', 'ptes', 'ptes_err'):
        c.same('shape of ' + a, tuple(getattr(o, a).shape), (nt, nc, n))
    for t in range(nt):
        for ch in range(nc):
            b, m, v0, v1 = fits[t, ch]
            x, y, s = vb[t][ch], at(d, sh, t, ch), er[t][ch]
            e = at(ve, sh, t, ch)
            c.eq('current offset is the intercept of the normal fit', o.ioff[t, ch], b)
            c.eq('error of the offset', o.ioff_err[t, ch] ** 2, v0)
            c.eq('normal fit resistance is one over the slope', o.rfit[t, ch], 1 / m)
            c.eq('error of the fit resistance', o.rfit_err[t, ch] ** 2 * m ** 4, v1)
            r, re = R(t, ch, 0)
            c.eq('normal resistance', o.rnorm[t, ch], 1 / m - r)
            c.eq('error of the normal resistance', (o.rnorm_err[t, ch] ** 2 - re * re) * m ** 4, v1)
            for i in range(n):
                r, re = R(t, ch, i)
                I = y[i] - b
                vi = s[i] * s[i] + v0
                c.eq('TES current', o.ites[t, ch, i], I)
                c.eq('error of the TES current', o.ites_err[t, ch, i] ** 2, vi)
                c.eq('TES resistance from the loop equation', (o.r0[t, ch, i] + r) * I, x[i])
                c.eq('TES power is the Joule power', o.ptes[t, ch, i], x[i] * I - I * I * r)
                c.eq('error of the TES resistance', o.r0_err[t, ch, i] ** 2 * I ** 4,
                     e[i] * e[i] * I * I + x[i] * x[i] * vi + re * re * I ** 4)
                c.eq('error of the TES power', o.ptes_err[t, ch, i] ** 2,
                     (x[i] - 2 * I * r) ** 2 * vi + I * I * e[i] * e[i] + I ** 4 * re * re)


def normal(c, x, y, s, tol, last):
    """points up to, not including, the first that spoils the fit (or the last valid one)"""
    k = 2
    while k < last:
        k += 1
        b, m, _, _ = line(x[:k], y[:k], s[:k])
        chi = sum(((m * p + b - q) / e) ** 2 for p, q, e in zip(x[:k], y[:k], s[:k]))
        if c.fork(chi > tol * (k - 2)):
            break
    return k - 1


def h_auto(c, n, pad):
    steady(c)
    y = c.reals('i', n, lo=-20, hi=20)
    last = n - pad
    x = c.arr(VB[:n])
    s = c.arr(ER[:n])
    for j in range(last, n):
        x[j] = y[j] = s[j] = float('nan')
    k = normal(c, VB, y, ER, 10, last)
    if n == 2:
        k = 1
    r = V._findnormalinds(x, y, s)
    c.same('normal points', list(r), list(range(k)))
    r = V._findnormalinds(x, y, s, tol=10)
    c.same('normal points with the default tolerance', list(r), list(range(k)))
    if k < 2:
        return
    b, m, v0, v1 = line(VB[:k], list(y[:k]), ER[:k])
    nonzero(c, m)
    for j in range(last):
        nonzero(c, y[j] - b)
    z = c.arr([F(0)] * n)
    o = V.IV(y, s, x, z, 1.0, 0.0, ['a'])
    o.calc_iv()
    c.eq('automatic points are used in the fit: offset', o.ioff[0, 0], b)
    c.eq('automatic points are used in the fit: resistance', o.rfit[0, 0], 1 / m)
    for j in range(n):
        if j < last:
            c.eq('current of valid points', o.ites[0, 0, j], y[j] - b)
        else:
            c.true('padding stays NaN', c.isnan(o.ites[0, 0, j]) and c.isnan(o.r0[0, 0, j])
                   and c.isnan(o.ptes[0, 0, j]))


def h_pad(c):
    """padded points are NaN and change nothing else"""
    steady(c)
    sh = (2, 1, 4)
    d = c.reals('i', sh, lo=-5, hi=5)
    x, s = c.arr([VB[:4]] * 2).reshape(sh), c.arr([ER[:4]] * 2).reshape(sh)
    ve = c.reals('ve', sh, lo=0)
    rl = c.real('rl', pos=True)
    for t in range(2):
        b, m, _, _ = line(VB[:2], list(d[t, 0, :2]), ER[:2])
        nonzero(c, m)
        for j in range(4):
            nonzero(c, d[t, 0, j] - b)
    A = V.IV(d.copy(), s.copy(), x.copy(), ve.copy(), rl, F(1) * 0.5, ['a'], normalinds=range(2))
    A.calc_iv()
    for q in (d, x, s, ve):
        q[1, 0, 3] = float('nan')
    B = V.IV(d, s, x, ve, rl, F(1) * 0.5, ['a'], normalinds=range(2))
    B.calc_iv()
    for t in range(2):
        for j in range(4):
            for a in ('ites', 'r0', 'ptes', 'ites_err', 'r0_err', 'ptes_err'):
                g = getattr(B, a)[t, 0, j]
                if (t, j) == (1, 3):
                    c.true('padding stays NaN', c.isnan(g))
                else:
                    c.eq('padding changes nothing else', g, getattr(A, a)[t, 0, j])


def h_err(c):
    d = c.reals('i', (1, 2, 3))
    z = c.arr([[F(0)] * 3] * 2).reshape((1, 2, 3))
    mk = lambda d, rl, names: (lambda: V.IV(d, z, z, z, rl, rl, names))
    c.raises('names must match the channels', ValueError, mk(d, 1.0, ['a']))
    c.raises('more than three dimensions are refused', ValueError,
             mk(c.reals('q', (1, 1, 1, 2)), 1.0, ['a']))
    for shape in ((3,), (2, 1), (1, 2, 2), (1, 3)):
        c.raises('load resistances of another shape are refused', ValueError,
                 mk(d, c.reals('r%d%d' % (len(shape), sum(shape)), shape, pos=True), ['a', 'b']))


def jobs(tier):
    big = tier == 'thorough'
    J = []
    A = [((3,), (0, 1), 'scalar', ''), ((3,), (0, 1, 2), 'chan', ''), ((2, 3), (0, 2), 'scalar', ''),
         ((2, 3), (0, 1), 'chan', ''), ((2, 3), (1, 2), 'temp', ''), ((2, 2, 3), (0, 1), 'chan', ''),
         ((2, 1, 3), (0, 1), 'temp', ''), ((2, 2, 3), (0, 1), 'point', ''), ((1, 1, 3), (0, 1, 2), 'point', ''),
         ((3,), (0, 1), 'scalar', 'bias'), ((2,), (0, 1), 'scalar', 'err'), ((2, 2, 2), (0, 1), 'temp', '')]
    if big:
        A += [((4,), (0, 1, 2, 3), 'scalar', ''), ((3,), (0, 2), 'chan', 'err'), ((2, 3, 3), (0, 1), 'temp', ''),
              ((3, 2, 3), (0, 1), 'point', ''), ((4,), (0, 1), 'point', 'bias')]
    for sh, inds, form, sym in A:
        if form == 'point' and len(sh) != 3:
            continue
        J.append(('iv/%s/%s/%s/%s' % ('x'.join(map(str, sh)), inds, form, sym), h_iv,
                  dict(sh=sh, inds=inds, form=form, sym=sym)))
    for n, pad in ((3, 0), (4, 0), (4, 1)) + (((5, 0), (5, 2)) if big else ()):
        J.append(('auto/%d/%d' % (n, pad), h_auto, dict(n=n, pad=pad)))
    J.append(('pad', h_pad, {}))
    J.append(('refused', h_err, {}))
    return J


INTS = [(r'iv/.*', 'i')]
