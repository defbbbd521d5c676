"""P12: the Noise class - spectral densities, cross spectra, correlations, decorrelated noise."""
from qetpy.core import _noise as M
from harness.ref import *
from harness.p11 import dft, sq, dbl, half

BOUNDS = ('1-3 traces, 1-3 channels, trace lengths 2-6 and 8; symbolic samples, gain and sample rate; '
          'decorrelation of an arbitrary Hermitian 2x2 or diagonal-plus-one-pair 3x3 cross spectrum; '
          'every sign pattern of the cross spectrum means for 2-4 bins')
ASSUMPTIONS = ['cross spectral matrices are invertible', 'no channel has constant magnitude over the traces '
               '(correlation coefficients)', 'scipy.signal.csd is modelled (Hann window, constant detrend)']


def noise(c, nt, nc, n, gain=True):
    x = c.reals('x', (nt, nc, n))
    g = c.real('gain', lo=F(1, 10), hi=10) if gain else 1
    fs = c.real('fs', lo=F(1, 10), hi=1000)
    o = M.Noise(x, fs, ['c%d' % i for i in range(nc)], tracegain=g, name='n')
    return x, g, fs, o


def h_init(c, n):
    x, g, fs, o = noise(c, 2, 2, n)
    c.eq('traces are divided by the gain', o.traces, [[[v / g for v in r] for r in t] for t in x])
    c.eq('times', o.time, [F(j) / fs for j in range(n)])
    c.eq('frequencies', o.freqs, [fs * k / n for k in half(n)])
    c.same('channel numbers', dict(o.chandict), {'c0': 0, 'c1': 1})
    y = c.reals('y', (3, n))
    p = M.Noise(y, fs, ['a'])
    c.eq('two-dimensional traces are one channel', p.traces, [[r] for r in y])
    c.raises('a single trace is refused', ValueError, lambda: M.Noise(y[0], fs, ['a']))
    c.raises('wrong number of channel names', ValueError, lambda: M.Noise(x, fs, ['a']))
    c.raises('csd of a single channel is refused', ValueError, p.calculate_csd)
    c.raises('correlations of a single channel are refused', ValueError, p.calculate_corrcoeff)


def h_psd(c, nt, nc, n):
    x, g, fs, o = noise(c, nt, nc, n)
    o.calculate_psd()
    re = [[0] * (n // 2 + 1) for _ in range(nc)]
    im = [[0] * (n // 2 + 1) for _ in range(nc)]
    for j in range(nc):
        for i in range(nt):
            z = dft(c, [v / g for v in x[i, j]])
            for k in half(n):
                s = fs * n * nt
                re[j][k] = re[j][k] + z[k].real ** 2 * dbl(n, k) / s
                im[j][k] = im[j][k] + z[k].imag ** 2 * dbl(n, k) / s
    c.eq('one-sided PSD of every channel', o.psd, [[a + b for a, b in zip(*q)] for q in zip(re, im)])
    c.eq('power of the real part', o.real_psd, re)
    c.eq('power of the imaginary part', o.imag_psd, im)
    for j in range(nc):
        f, p = M.calc_psd(o.traces[:, j], fs=fs)
        c.eq('agrees with calc_psd', o.psd[j], p)


def h_slope(c, n):
    x, g, fs, o = noise(c, 2, 1, n, gain=False)
    o.remove_trace_slope()
    t = [F(j) / fs for j in range(n)]
    tm = sum(t) / n
    for i in range(2):
        r = o.traces[i][0]
        c.eq('least-squares slope is removed', sum((a - tm) * b for a, b in zip(t, r)), 0,
             scale=sum(abs(v) for v in x[i][0]) / fs)
        s = sum((a - tm) * b for a, b in zip(t, x[i][0])) / sum((a - tm) ** 2 for a in t)
        c.eq('only the slope is removed', r, [b - s * a for a, b in zip(t, x[i][0])])


def fillneg(c, v):
    """expected result of filling the non-positive values (forks on the signs)"""
    pos = [i for i in range(len(v)) if c.fork(v[i] > 0)]
    if not pos:
        return list(v)
    out = []
    for i in range(len(v)):
        if i in pos:
            out.append(v[i])
            continue
        lo = [p for p in pos if p < i]
        hi = [p for p in pos if p > i]
        if not lo:
            out.append(v[hi[0]])
        elif not hi:
            out.append(v[lo[-1]])
        else:
            a, b = lo[-1], hi[0]
            out.append(v[a] + (v[b] - v[a]) * F(i - a, b - a))
    return out


def h_fill(c, n):
    v = c.reals('v', n)
    want = fillneg(c, list(v))
    keep = v.copy()
    r = M.fill_negatives(v)
    c.eq('non-positive values are interpolated', r, want)
    if c.fork(sum(1 if c.fork(x > 0) else 0 for x in keep) > 0):
        for i in range(n):
            c.lt('filled values are positive', 0, r[i])


def csdref(c, x, y, fs):
    n = len(x)
    np = c.np
    w = [(1 - np.cos(c.pi * c.num(F(2 * k, n)))) / 2 for k in range(n)] if n > 1 else [1]
    mx, my = sum(x) / n, sum(y) / n
    X = dft(c, [w[k] * (x[k] - mx) for k in range(n)])
    Y = dft(c, [w[k] * (y[k] - my) for k in range(n)])
    s = fs * sum(q * q for q in w)
    return [X[k].conjugate() * Y[k] * dbl(n, k) / s for k in half(n)]


def h_csd(c, nt, n):
    import numpy as rn
    x, g, fs, o = noise(c, nt, 2, n, gain=False)
    # the filling itself is decided by the fill and csdfill harnesses
    c.stub(M.fill_negatives, lambda a: a)
    o.calculate_csd()
    k = n // 2 + 1
    c.same('shapes', [tuple(q.shape) for q in (o.csd, o.real_csd, o.imag_csd, o.real_csd_std, o.imag_csd_std)],
           [(2, 2, k)] * 5)
    for i in range(2):
        for j in range(2):
            z = [csdref(c, x[t, i], x[t, j], fs) for t in range(nt)]
            m = [sum(q[f] for q in z) / nt for f in range(k)]
            c.eq('mean cross spectrum', o.csd[i][j], m)
            c.eq('its real part', o.real_csd[i][j], [q.real for q in m])
            c.eq('its imaginary part', o.imag_csd[i][j], [q.imag for q in m])
            for f in range(k):
                rv = sum((q[f].real - m[f].real) ** 2 for q in z) / nt
                iv = sum((q[f].imag - m[f].imag) ** 2 for q in z) / nt
                c.eq('spread of the real part', o.real_csd_std[i][j][f] ** 2, rv, scale=1 + sq(m[f]))
                c.eq('spread of the imaginary part', o.imag_csd_std[i][j][f] ** 2, iv, scale=1 + sq(m[f]))
    for f in range(k):
        c.eq('Hermitian', o.csd[0][1][f], o.csd[1][0][f].conjugate())


def h_csdfill(c, n):
    """the returned real/imaginary spectra have their non-positive values filled; csd itself is untouched"""
    x = c.np.zeros((1, 2, n)) + c.num(0)
    x[0, 0] = c.arr([F(3, 2), -1, F(1, 4), 2, F(-5, 3)][:n])
    x[0, 1] = c.reals('x', n)
    fs = c.num(2)
    o = M.Noise(x, fs, ['a', 'b'])
    zz = [[csdref(c, x[0, i], x[0, j], fs) for j in range(2)] for i in range(2)]
    for q in zz[0][1]:
        c.assume(q.real * q.real > F(1, 10 ** 12))     # no sum that is zero up to rounding
    for q in zz[0][1][1:(n + 1) // 2]:
        c.assume(q.imag * q.imag > F(1, 10 ** 12))
    for q in zz[1][1]:
        c.assume(q.real > F(1, 10 ** 12))
    o.calculate_csd()
    for i in range(2):
        for j in range(2):
            z = zz[i][j]
            c.eq('cross spectrum', o.csd[i][j], z)
            if i == j:
                c.eq('auto spectra are positive', o.real_csd[i][j], [q.real for q in z])
                continue
            c.eq('real part filled', o.real_csd[i][j], fillneg(c, [q.real for q in z]),
                 scale=1 + sum(sq(q) for q in z))
            if True:
                c.eq('imaginary part filled', o.imag_csd[i][j], fillneg(c, [q.imag if dbl(n, k) == 2 else 0 for k, q in enumerate(z)]),
                 scale=1 + sum(sq(q) for q in z))


def h_uncorr(c, n, kind):
    K = 2
    o = M.Noise(c.reals('x', (2, n, 2)), c.num(2), ['c%d' % i for i in range(n)])
    d = c.reals('d', (n, K), lo=F(1, 10), hi=10)
    a, b = c.reals('a', (n, n, K), lo=-2, hi=2), c.reals('b', (n, n, K), lo=-2, hi=2)
    z = c.carr([[[0j] * K for _ in range(n)] for _ in range(n)]) + 0j
    S = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            cell = []
            for f in range(K):
                if i == j:
                    cell.append(d[i][f] + 0j)
                elif n == 3 and {i, j} != set(kind):
                    cell.append(c.num(0) + 0j)
                else:
                    u, v = min(i, j), max(i, j)
                    w = a[u][v][f] + 1j * b[u][v][f]
                    cell.append(w if i < j else w.conjugate())
            S[i][j] = cell
    o.csd = c.np.array(S)
    o.real_csd = c.reals('r', (n, n, K))
    rc = o.real_csd.copy()
    P = (0, 1) if n == 2 else kind
    det = [d[P[0]][f] * d[P[1]][f] - a[P[0]][P[1]][f] ** 2 - b[P[0]][P[1]][f] ** 2 for f in range(K)]
    for f in range(K):
        c.assume(det[f] > F(1, 100))
    o.calculate_uncorr_noise()
    for i in range(n):
        want = [det[f] / d[P[1 - P.index(i)]][f] if i in P else d[i][f] for f in range(K)]
        c.eq('uncorrelated noise is the inverse of the diagonal of the inverse', o.uncorrnoise[i], want)
        c.eq('correlated noise is the rest', o.corrnoise[i], [rc[i][i][f] - want[f] for f in range(K)])
        c.eq('both add up to the real spectrum', [o.uncorrnoise[i][f] + o.corrnoise[i][f] for f in range(K)],
             rc[i][i])
        for f in range(K):
            c.le('never more than the total for a covariance matrix', o.uncorrnoise[i][f], d[i][f])


def h_first(c):
    """decorrelation computes the cross spectrum first when it is missing, and only then"""
    log = []
    o = M.Noise(c.reals('x', (2, 2, 2)), c.num(2), ['a', 'b'])

    def fake():
        log.append(1)
        o.csd = c.np.array([[[2 + 0j], [0 + 0j]], [[0 + 0j], [3 + 0j]]]) * (c.num(1) + 0j)
        o.real_csd = c.arr([[[2], [0]], [[0], [3]]]) if c.mode == 'sym' else o.csd.real
    o.calculate_csd = fake
    o.calculate_uncorr_noise()
    c.true('cross spectrum computed', len(log) >= 1)
    c.eq('uncorrelated noise of uncorrelated channels', o.uncorrnoise, [[2], [3]])


def h_corr(c, nt, n):
    x = c.reals('x', (nt, 2, n), lo=F(-10), hi=10)
    o = M.Noise(x, c.num(2), ['a', 'b'])
    np = c.np
    K = n // 2 + 1
    m = [[[abs(z.real) for z in dft(c, x[i, j])[:K]] for j in range(2)] for i in range(nt)]
    for j in range(2):
        for k in range(K):
            mu = sum(m[i][j][k] for i in range(nt)) / nt
            c.assume(sum((m[i][j][k] - mu) ** 2 for i in range(nt)) > F(1, 100))
    o.calculate_corrcoeff()
    c.same('shape', tuple(o.corrcoeff.shape), (2, 2, K))
    for k in range(K):
        mu = [sum(m[i][j][k] for i in range(nt)) / nt for j in range(2)]
        cov = [[sum((m[i][p][k] - mu[p]) * (m[i][q][k] - mu[q]) for i in range(nt)) / (nt - 1) for p in range(2)]
               for q in range(2)]
        r = o.corrcoeff[:, :, k]
        c.eq('unit diagonal', [r[0, 0], r[1, 1]], [1, 1])
        c.eq('symmetric', r[0, 1], r[1, 0])
        c.eq('correlation coefficient of the magnitudes over the traces',
             r[0, 1] * np.sqrt(cov[0][0]) * np.sqrt(cov[1][1]), cov[0][1], scale=1 + cov[0][0] + cov[1][1])


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for n in (2, 3, 4, 5, 6):
        J.append(('init/%d' % n, h_init, dict(n=n)))
    for n in (2, 3, 4, 5, 6) + ((8, 10, 12) if big else (8,)):
        for nt, nc in ((1, 1), (2, 2), (3, 1)):
            J.append(('psd/%d/%d/%d' % (nt, nc, n), h_psd, dict(nt=nt, nc=nc, n=n)))
    for n in (2, 3, 4, 6):
        J.append(('slope/%d' % n, h_slope, dict(n=n)))
    for n in (1, 2, 3, 4) + ((5, 6) if big else (5,)):
        J.append(('fill/%d' % n, h_fill, dict(n=n)))
    for n in (2, 3, 4, 5, 6):
        for nt in (1, 2) if n < 5 else (1,):
            J.append(('csd/%d/%d' % (nt, n), h_csd, dict(nt=nt, n=n)))
    for n in (3, 4) + ((5, 6) if big else ()):
        J.append(('csdfill/%d' % n, h_csdfill, dict(n=n)))
    J.append(('uncorr/2', h_uncorr, dict(n=2, kind=None)))
    for k in ((0, 1), (0, 2), (1, 2)):
        J.append(('uncorr/3/%s' % (k,), h_uncorr, dict(n=3, kind=k)))
    J.append(('first', h_first, {}))
    for nt, n in ((2, 1), (3, 1), (4, 1), (2, 2), (3, 2)):
        J.append(('corr/%d/%d' % (nt, n), h_corr, dict(nt=nt, n=n)))
    return J


INTS = [(r'psd/2/2/[2-5]', 'x'), (r'psd/3/1/4', 'x'), (r'csd/.*/3', ('x', 'y')), (r'slope/4', 'v')]
