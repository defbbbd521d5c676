"""P11: power spectral densities - definition, folding, conservation of power."""
from qetpy.core import _noise as M
from harness.ref import *

BOUNDS = ('trace lengths 1-6, 8, 10, 12 (thorough also longer stacks), stacks of 1-3 traces and of '
          '2x2 channels; symbolic samples and sample rate; symbolic two-sided PSDs for folding')
ASSUMPTIONS = []


def dft(c, x):
    np, n = c.np, len(x)
    return [sum(x[j] * np.exp(c.num(F(-2 * ((j * k) % n), n)) * 1j * c.pi) for j in range(n))
            for k in range(n)]


def sq(z):
    return (z.conjugate() * z).real


def freqs(n, fs):
    return [fs * (k if k < (n + 1) // 2 else k - n) / n for k in range(n)]


def half(n):
    return list(range(n // 2 + 1))


def dbl(n, k):
    return 1 if k == 0 or 2 * k == n else 2


def h_calc(c, n, shape):
    x = c.reals('x', tuple(shape) + (n,))
    fs = c.real('fs', lo=F(1, 10), hi=1000)
    keep = x.copy()
    f2, p2 = M.calc_psd(x, fs=fs, folded_over=False)
    f1, p1 = M.calc_psd(x, fs=fs, folded_over=True)
    c.eq('traces unmodified', x, keep)
    rows = [x] if not shape else [x[i] for i in range(shape[0])]

    def ref(r):
        if len(shape) == 2:
            return [ref1(r[j]) for j in range(shape[1])]
        return ref1(r)

    def ref1(r):
        return [sq(z) for z in dft(c, r)]
    rs = [ref(r) for r in rows]

    per = [[r] for r in rows] if len(shape) < 2 else [[r[j] for j in range(shape[1])] for r in rows]

    def mean(vals):
        if isinstance(vals[0], list):
            return [mean([v[i] for v in vals]) for i in range(len(vals[0]))]
        return sum(vals) / len(vals) / (fs * n)
    want = mean(rs)
    chans = want if len(shape) == 2 else [want]
    g2 = p2 if len(shape) == 2 else [p2]
    g1 = p1 if len(shape) == 2 else [p1]
    c.eq('two-sided frequencies', f2, freqs(n, fs))
    c.eq('one-sided frequencies', f1, [fs * k / n for k in half(n)])
    for i, (w, a, b) in enumerate(zip(chans, g2, g1)):
        c.eq('two-sided PSD is the mean squared transform', a, w)
        c.eq('one-sided PSD doubles all but the zero and Nyquist frequency', b,
             [w[k] * dbl(n, k) for k in half(n)])
        power = sum(sum(q * q for q in r[i]) for r in per) / (n * len(rows))
        c.eq('two-sided PSD integrates to the mean square', sum(a[k] for k in range(n)) * fs / n, power)
        c.eq('one-sided PSD integrates to the mean square',
             sum(b[k] for k in range(len(b))) * fs / n, power)
        ff, pf = M.foldpsd(a, fs)
        c.eq('foldpsd agrees with the one-sided PSD', pf, b)
        c.eq('foldpsd frequencies agree', ff, f1)


def h_fold(c, ns):
    n = c.pick('n', ns)
    h = c.reals('p', n // 2 + 1)
    fs = c.real('fs', lo=F(1, 10), hi=1000)
    p = c.np.array([h[min(k, n - k)] for k in range(n)])
    keep = p.copy()
    f, q = M.foldpsd(p, fs)
    c.eq('fold: input unmodified', p, keep)
    c.eq('fold: values', q, [h[k] * dbl(n, k) for k in half(n)])
    c.eq('fold: frequencies', f, [fs * k / n for k in half(n)])
    c.eq('fold: total power conserved', sum(q[k] for k in range(len(q))), sum(p[k] for k in range(n)))


def h_stack(c, n, shape):
    """averaging over the first axis only"""
    x = c.reals('x', tuple(shape) + (n,))
    fs = c.real('fs', lo=F(1, 10), hi=1000)
    for folded in (True, False):
        f, p = M.calc_psd(x, fs=fs, folded_over=folded)
        for j in range(shape[1]):
            g, q = M.calc_psd(x[:, j], fs=fs, folded_over=folded)
            c.eq('stack: channels are independent', p[j], q)


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for n in (1, 2, 3, 4, 5, 6, 8, 10, 12):
        for shape in ((), (1,), (2,)) + (((3,), (2, 2)) if n <= 6 else ()) + (((4,), (6,)) if big else ()):
            J.append(('calc/%d/%s' % (n, shape), h_calc, dict(n=n, shape=shape)))
    for n in (2, 3, 4, 5) + ((6, 8) if big else ()):
        J.append(('stack/%d' % n, h_stack, dict(n=n, shape=(2, 2))))
    top = 64 if big else 32
    for k in range(1, top, 8):
        J.append(('fold/%d' % k, h_fold, dict(ns=list(range(k, k + 8)))))
    return J


INTS = [(r'calc/[1-6]/.*', 'x')]
