"""P13: PSD smoothing and noise generation."""
from qetpy.core import _noise as M
from qetpy.utils import _utils as U
import numpy.random as _r

RANDN, NORMAL = _r.randn, _r.standard_normal
from harness.ref import *
from harness.p11 import dft, sq, freqs
from harness.p12 import fillneg

BOUNDS = ('PSDs of 1-8 bins with symbolic values (every ordering of up to 5 distinct bins), symbolic abscissae '
          'offsets for make_decreasing; noise generation for lengths 1-6, 8, 10, 12 and 1-2 traces with '
          'arbitrary random numbers')
ASSUMPTIONS = ['neighbouring PSD values differ (ties are covered by the non-strict claims only)']


def records(c, y):
    keep = [0]
    for i in range(1, len(y)):
        if c.fork(y[i] < y[keep[-1]]):
            keep.append(i)
    return keep


def decreasing(c, y, x):
    keep = records(c, y)
    if len(keep) == 1:
        return keep, [y[0]] * len(y)
    out = []
    for i in range(len(y)):
        k = 0
        while k < len(keep) - 2 and i > keep[k + 1]:
            k += 1
        a, b = keep[k], keep[k + 1]
        out.append(y[a] + (y[b] - y[a]) * (x[i] - x[a]) / (x[b] - x[a]))
    return keep, out


def h_dec(c, n, xs, zero):
    y = c.reals('y', n)
    if zero is not None:
        y[zero] = 0 * y[zero]
    x = [F(i) for i in range(n)] if xs is None else xs
    keep, want = decreasing(c, y, x)
    before = y.copy()
    r = U.make_decreasing(y) if xs is None else U.make_decreasing(y, x=c.np.array([float(v) for v in xs]))
    c.eq('make_decreasing: kept values and interpolation', r, want)
    c.eq('make_decreasing: input unmodified', y, before)
    for i in range(1, n):
        c.le('make_decreasing: never increases', r[i], r[i - 1])
    for i in range(n):
        c.le('make_decreasing: never above the input', r[i], y[i]) if i <= keep[-1] else None
    c.eq('make_decreasing: running minima are kept', [r[i] for i in keep], [y[i] for i in keep])


def h_smooth(c, n):
    h = c.reals('p', n // 2 + 1, lo=0)
    p = c.np.array([h[min(k, n - k)] for k in range(n)])
    keep = p.copy()
    _, want = decreasing(c, list(h), [F(i) for i in range(len(h))])
    r = M.smooth_psd(p)
    c.same('smooth: length', len(r), n)
    c.eq('smooth: input unmodified', p, keep)
    c.eq('smooth: symmetric and decreasing', r, [want[min(k, n - k)] for k in range(n)])


def h_mono(c, n):
    """a PSD that already decreases is unchanged"""
    d = c.reals('d', n // 2 + 1, lo=F(1, 1000))
    h = [sum(d[j] for j in range(k, len(d))) for k in range(len(d))]
    p = c.np.array([h[min(k, n - k)] for k in range(n)])
    c.eq('smooth: decreasing PSDs are unchanged', M.smooth_psd(p), [h[min(k, n - k)] for k in range(n)])


def h_gen(c, n, nt, inf):
    w = c.reals('w', n // 2 + 1, lo=F(1, 100))
    fs = c.num(4)
    p = c.np.array([w[min(k, n - k)] ** 2 for k in range(n)])
    if inf:
        p[0] = float('inf')
    keep = [p[k] for k in range(n)]
    g = c.reals('g', (nt, n))
    used = []

    def randn(*shape):
        used.append(tuple(int(s) for s in shape))
        return g.copy()
    c.stub(RANDN, randn)
    c.stub(NORMAL, lambda size=None: randn(*size))
    r = M.gen_noise(p, fs=fs, ntraces=nt)
    first = list(used)
    if nt == 1:
        c.eq('noise: sample rate 1 and one trace by default', [M.gen_noise(p), ], [M.gen_noise(p, fs=1.0, ntraces=1), ])
        r1 = M.gen_noise(p, fs=float(4 * fs))
        c.eq('noise: grows with the root of the sample rate', r1, 2 * r)
    used[:] = first
    c.same('noise: one standard normal number per sample', used, [(nt, n)])
    c.same('noise: shape', tuple(r.shape), (nt, n))
    for i in range(nt):
        z, q = dft(c, list(r[i])), dft(c, list(g[i]))
        f = [0 if inf and k == 0 else 2 * w[min(k, n - k)] for k in range(n)]
        c.eq('noise: transform is that of white noise times sqrt(PSD fs)', z, [a * b for a, b in zip(q, f)])
        c.eq('noise: periodogram is the PSD times that of the white noise', [sq(a) / (fs * n) for a in z],
             [b * b / fs * sq(a) / n for a, b in zip(q, f)])
    c.true('noise: caller\'s PSD is not changed', all(
        (c.mode == 'sym' and not hasattr(a, 're') and not hasattr(b, 're') and a == b) or
        (a is b) or c.fork(a == b) for a, b in zip(keep, [p[k] for k in range(n)])))


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for n in (1, 2, 3, 4, 5) + ((6,) if big else ()):
        J.append(('dec/%d' % n, h_dec, dict(n=n, xs=None, zero=None)))
        for z in range(n) if n <= 4 else ():
            J.append(('dec/%d/zero%d' % (n, z), h_dec, dict(n=n, xs=None, zero=z)))
    J.append(('dec/3/x', h_dec, dict(n=3, xs=[0, F(1, 2), 2], zero=None)))
    J.append(('dec/4/x', h_dec, dict(n=4, xs=[-1, F(1, 2), 2, 8], zero=None)))
    for n in range(2, 13 if big else 10):
        J.append(('smooth/%d' % n, h_smooth, dict(n=n)))
    for n in (2, 3, 4, 5, 6, 7, 8) + ((12, 15, 16) if big else ()):
        J.append(('mono/%d' % n, h_mono, dict(n=n)))
    for n in (1, 2, 3, 4, 5, 6, 8, 10, 12):
        for nt, inf in ((1, False), (2, False), (1, True)):
            J.append(('gen/%d/%d/%d' % (n, nt, inf), h_gen, dict(n=n, nt=nt, inf=inf)))
    return J
