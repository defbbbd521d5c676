"""P14: shifting, aligning, filtering of traces and ideal templates."""
from qetpy.utils import _utils as U
import scipy.signal as S
from harness.ref import *

BOUNDS = ('arrays of 1-6 samples with symbolic values and fill value, every whole shift from -n to n and every '
          'real shift in between (symbolic); 2-3 traces of 2-4 samples for the alignment; templates of 1-8 '
          'samples with offsets -3..3 and symbolic time constants')
ASSUMPTIONS = ['filtered traces have a positive maximum after their mean is removed (alignment)',
               'scipy.ndimage.shift is modelled (linear between samples)']


def shifted(x, k, fill):
    n = len(x)
    return [x[i - k] if 0 <= i - k < n else fill for i in range(n)]


def h_whole(c, n):
    x = c.reals('x', n)
    fill = c.real('fill')
    k = c.pick('shift', [F(i) for i in range(-n, n + 1)])
    how = c.pick('as float', [False, True])
    keep = x.copy()
    r = U.shift(x, float(k) if how else int(k), fill_value=fill)
    c.eq('shift: whole samples move, the gap is filled', r, shifted(x, int(k), fill))
    c.eq('shift: input unmodified', x, keep)
    r0 = U.shift(x, int(k))
    c.eq('shift: gap is zero by default', r0, shifted(x, int(k), 0))


def h_frac(c, n):
    """shifts by part of a sample interpolate linearly"""
    x = c.reals('x', n)
    fill = c.real('fill')
    d = c.pick('shift', [F(2 * i + 1, 2) for i in range(-n, n)] + [F(1, 4), F(-1, 4), F(7, 4), F(-9, 8)])
    r = U.shift(x, float(d), fill_value=fill)
    out = []
    for i in range(n):
        p = i - d
        if p < 0 or p > n - 1:
            out.append(fill)
        else:
            j = min(p.numerator // p.denominator, n - 2) if n > 1 else 0
            out.append(x[j] + (x[j + 1] - x[j]) * (p - j) if n > 1 else x[0])
    c.eq('shift: fractional shifts interpolate linearly', r, out)


def h_template(c, n, offs):
    tr = c.real('tau_r', lo=F(1, 20), hi=2)
    ratio = c.real('more', lo=F(1, 20), hi=2)
    tf = tr + ratio
    off = c.pick('offset', offs)
    np = c.np
    t = c.arr([F(i) for i in range(n)])
    p = [np.exp(-c.num(F(i)) / tf) - np.exp(-c.num(F(i)) / tr) for i in range(n)]
    k = n // 2 + off
    s = shifted(p, k, 0)
    for v in p[1:]:
        c.assume(v > 0)
    if all(i - k <= 0 or i - k >= n for i in range(n)):
        return
    r = U.make_template(t, tr, tf, **({} if off == 0 and c.pick('default', [True, False]) else dict(offset=off)))
    top = 0
    hit = False
    for i in range(n):
        c.le('template: at most one', r[i], 1)
        if c.fork(r[i] == 1):
            hit = True
    c.true('template: maximum is exactly one', hit)
    first = [i for i in range(n) if 0 < i - k < n]
    a = first[0]
    for i in range(n):
        c.eq('template: shape of the two exponentials, zero before the start', r[i] * s[a], s[i] * r[a],
             scale=abs(s[a]))
    c.lt('template: pulse is positive', 0, r[a])


def h_filter(c):
    fs = c.pick('fs', [F(625000), F(1000)])
    cut = c.pick('cut', [F(100), F(50), F(25, 2)])
    order = c.pick('order', [1, 2])
    x = c.reals('x', (2, 3))
    log = []
    c.stub(S.butter, lambda o, w, *a, **k: log.append(('butter', int(o), w, a, tuple(sorted(k.items())))) or ('B', 'A'))
    c.stub(S.filtfilt, lambda b, a, y, *r, **k: log.append(('filt', b, a, r, tuple(sorted(k.items())))) or y * 2)
    y = U.lowpassfilter(x, cut_off_freq=float(cut), fs=float(fs), order=order)
    c.same('filter: calls', [q[0] for q in log], ['butter', 'filt'])
    if len(log) == 2:
        c.same('filter: order', log[0][1], order)
        c.eq('filter: cutoff in units of the Nyquist frequency', log[0][2], 2 * cut / fs)
        c.same('filter: coefficients are applied forwards and backwards', log[1][1:3], ('B', 'A'))
    c.eq('filter: filtered traces returned', y, x * 2)


def corr(a, b, lag):
    """sum over time of a(t) b(t - lag)"""
    n = len(a)
    return sum([a[i] * b[i - lag] for i in range(n) if 0 <= i - lag < n], 0 * a[0])


def norm(c, x):
    n = len(x)
    m = sum(x) / n
    y = [v - m for v in x]
    top = y[0]
    for v in y[1:]:
        if c.fork(v > top):
            top = v
    return [v / top for v in y]


def h_align(c, n, nt, ncut):
    x = c.reals('x', (nt, n), lo=-10, hi=10)
    # the first trace is a fixed shape, the others are arbitrary
    first = [F(0), F(1), F(3), F(1, 2), F(-1, 4)][:n]
    for i in range(n):
        x[0, i] = c.num(first[i])
    log = []

    def lp(y, cut_off_freq=100000, fs=625e3, order=1):
        log.append((cut_off_freq, fs))
        return y * 1
    c.stub(U.lowpassfilter, lp)
    q = c.pick('cutoff', [500.0, 5000.0, None])
    kw = {} if q is None else dict(cut_off_freq=q, fs=1e4)
    keep = x.copy()
    for i in range(1, nt):
        m = sum(x[i, :ncut]) / ncut
        c.assume(sum((v - m) ** 2 for v in x[i, :ncut]) > F(1, 100))
    sh = U.align_traces(x, lgcjustshifts=True, n_cut=ncut, **kw)
    c.same('align: requested filter', log, [(q, 1e4) if kw else (5000.0, 625e3)])
    t = [norm(c, list(x[i, :ncut])) for i in range(nt)]
    lags = list(range(-ncut + 1, ncut))
    whole = []
    for i in range(nt):
        s = None
        for l in lags:
            if c.fork(abs(sh[i] - l) < F(1, 4)):
                s = l
        c.true('align: whole shift', s is not None)
        if s is None:
            return
        whole.append(s)
        c.eq('align: exactly', sh[i], s)
        for l in lags:
            c.le('align: shift maximises the correlation with the first trace', corr(t[0], t[i], l),
                 corr(t[0], t[i], s))
    c.same('align: first trace is not moved', whole[0], 0)
    s2, al = U.align_traces(x, n_cut=ncut, **kw)
    c.eq('align: same shifts', s2, sh)
    c.eq('align: traces unmodified', x, keep)
    for i in range(nt):
        want = shifted(list(x[i]), whole[i], None)
        for j in range(n):
            if want[j] is None:
                c.true('align: samples without data are masked', al.mask[i, j])
            else:
                c.true('align: moved samples are not masked', not al.mask[i, j])
                c.eq('align: every trace is moved by its shift', al.data[i, j], want[j])


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for n in range(1, 9 if big else 7):
        J.append(('whole/%d' % n, h_whole, dict(n=n)))
        J.append(('frac/%d' % n, h_frac, dict(n=n)))
    for n in (3, 4, 5, 6) + ((8,) if big else ()):
        for o in (-2, -1, 0, 1, 2):
            J.append(('template/%d/%d' % (n, o), h_template, dict(n=n, offs=[o])))
    J.append(('filter', h_filter, {}))
    J.append(('align/3/2', h_align, dict(n=3, nt=2, ncut=3)))
    J.append(('align/4/2/cut3', h_align, dict(n=4, nt=2, ncut=3)))
    J.append(('align/2/3', h_align, dict(n=2, nt=3, ncut=2)))
    if big:
        J.append(('align/4/2', h_align, dict(n=4, nt=2, ncut=4)))
        J.append(('align/3/3', h_align, dict(n=3, nt=3, ncut=3)))
    return J


INTS = [(r'(whole|frac)/[3-5]', 'x'), (r'filter', 'x'), (r'align/3/2', 'x')]
