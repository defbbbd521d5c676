"""P07: low-frequency and no-pulse chi2, time resolution."""
from qetpy.core._fitting import OptimumFilter, chi2lowfreq, chi2_nopulse
from harness.ref import *

BOUNDS = ('trace lengths 2-6 and 8; trace, amplitude, time, sample rate and cutoff frequencies '
          'symbolic, template and PSD symbolic for lengths 2-3 and rational above; AC and DC; class '
          'and stand-alone functions; batches of 0 (1-D input), 1 and 2 traces')


def inputs(c, n, sym):
    fs = c.real('fs', pos=True)
    if sym:
        return c.reals('s', n), c.reals('w', n, pos=True), fs
    return c.arr(pulse(n, 1)), c.arr(weights(n)), fs


def h_low(c, which, n, cp, sym, nb, full):
    s, w, fs = inputs(c, n, sym)
    v = [c.reals('v%d' % i, n) for i in range(max(nb, 1))]
    a = [c.real('a%d' % i) for i in range(max(nb, 1))]
    t = [c.real('t%d' % i) for i in range(max(nb, 1))]
    if full:
        f1 = fs
        f2 = fs * 2
    else:
        f1 = c.real('cut1', lo=0)
        f2 = c.real('cut2', lo=0)
        c.assume(f1 <= f2)

    def low(fc):
        if which == 'class':
            of = OptimumFilter(v[0], s, 1 / w, fs, coupling=cp)
            return [of.chi2_lowfreq(a[0], t[0], fcutoff=fc)]
        if nb == 0:
            return [chi2lowfreq(v[0], s, a[0], t[0], 1 / w, fs, fcutoff=fc, coupling=cp)]
        r = chi2lowfreq(c.np.array(v), s, c.np.array(a), c.np.array(t), 1 / w, fs, fcutoff=fc, coupling=cp)
        return r if nb > 1 else [r]
    x1, x2 = low(f1), low(f2)
    for i in range(max(nb, 1)):
        R = RefOF(c, v[i], s, w, fs, cp)
        mask = [c.fork(abs(f) <= f1) for f in R.freqs]
        if full:
            mask = [True] * n
        ref = R.chi2n([(a[i], t[i])], kmask=mask)
        tot = R.chi2(a[i], t[i])
        c.eq('low-frequency chi2 sums the residual below the cutoff', x1[i], ref, scale=1 + tot)
        # power is a sum of squared moduli, so this also says: never negative, and monotone
        mask2 = [m or full or c.fork(abs(f) <= f2) for m, f in zip(mask, R.freqs)]
        add = [b and not a for a, b in zip(mask, mask2)]
        c.eq('raising the cutoff adds the residual power of the added frequencies',
             x2[i] - x1[i], R.chi2n([(a[i], t[i])], kmask=add), scale=1 + tot)
        if full:
            c.eq('full band gives the full chi2', x1[i], tot, scale=1 + tot)


def h_nopulse(c, n, cp, sym, nb):
    s, w, fs = inputs(c, n, sym)
    v = [c.reals('v%d' % i, n) for i in range(max(nb, 1))]
    if nb == 0:
        of = OptimumFilter(v[0], s, 1 / w, fs, coupling=cp)
        r = [of.chi2_nopulse()]
        c.eq('same value on the second call', of.chi2_nopulse(), r[0])
        c.eq('zero amplitude gives the no-pulse chi2', of.chi2_lowfreq(0, c.real('t'), fcutoff=fs), r[0],
             scale=1 + r[0])
        r2 = [chi2_nopulse(v[0], 1 / w, fs, coupling=cp)]
    else:
        r = chi2_nopulse(c.np.array(v), 1 / w, fs, coupling=cp)
        r2 = r
    for i in range(max(nb, 1)):
        R = RefOF(c, v[i], s, w, fs, cp)
        c.eq('no-pulse chi2 is the weighted power of the trace', r[i], R.chi2n([]))
        c.eq('stand-alone no-pulse chi2', r2[i], R.chi2n([]))


def h_tres(c, n, cp, sym):
    s, w, fs = inputs(c, n, sym)
    v = c.reals('v', n)
    a = c.real('a', lo=F(1, 8), hi=8)
    if sym:
        d = s[0] - s[1]
        c.assume(d * d > F(1, 16))
    sig = OptimumFilter(v, s, 1 / w, fs, coupling=cp).time_resolution(a)
    R = RefOF(c, v, s, w, fs, cp)
    info = sum((2 * c.pi * R.freqs[k]) ** 2 * (R.s[k].conjugate() * R.s[k]).real * R.w[k]
               for k in range(n)) * R.df * a * a
    c.eq('time resolution is the inverse square root of the time information', sig * sig * info, 1)
    c.lt('time resolution is positive', 0, sig)
    neg = OptimumFilter(v, s, 1 / w, fs, coupling=cp).time_resolution(-a)
    c.eq('time resolution ignores the pulse sign', neg, sig)


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for cp in ('AC', 'DC'):
        for which in ('class', 'func'):
            for n, sym in ((2, True), (3, True), (4, False), (5, False), (6, False), (8, False)) + (
                    ((4, True), (10, False)) if big else ()):
                for nb in ((0,) if which == 'class' else (0, 1, 2) if n in (2, 4) else (0,)):
                    for full in (False, True):
                        J.append(('low/%s/%d/%s/%d/%s' % (which, n, cp, nb, full), h_low, dict(
                            which=which, n=n, cp=cp, sym=sym, nb=nb, full=full)))
        for n, sym in ((2, True), (3, True), (4, True), (5, False), (6, False), (8, False)):
            for nb in (0, 1, 2):
                J.append(('nopulse/%d/%s/%d' % (n, cp, nb), h_nopulse, dict(n=n, cp=cp, sym=sym, nb=nb)))
        for n, sym in ((2, True), (3, True), (4, True), (5, False), (6, False), (8, False)):
            J.append(('time/%d/%s' % (n, cp), h_tres, dict(n=n, cp=cp, sym=sym)))
    return J


INTS = [(r'(low|nopulse)/.*3.*', ('v', 'v0', 'v1')), (r'low/func/(2|4)/.*', ('v0', 'v1'))]
