"""P01: amplitude and chi-square of the fixed-time optimum filter."""
import numpy as onp
from qetpy.core._fitting import OptimumFilter, ofamp
from harness.ref import *

BOUNDS = ('trace lengths 2..4 with every sample, template value, PSD value and the sample rate '
          'symbolic; lengths 5, 6, 8 with symbolic trace and sample rate and rational '
          'template/PSD; AC and DC coupling; amplitude and integral normalisation; every '
          'fixed-time offset of the trace; batches of 1-2 traces')


def setup(c, n, sym, inorm=False):
    v = c.reals('v', n)
    fs = c.real('fs', pos=True)
    if sym:
        s = c.reals('s', n)
        if inorm:
            tot = s[0]
            for x in s[1:]:
                tot = tot + x
            c.assume(tot * tot > F(1, 100))
        w = c.reals('w', n, pos=True)
    else:
        s = c.arr(pulse(n, n))
        w = c.arr(weights(n))
    return v, s, w, fs


def h_class(c, n, coupling, integralnorm, sym, wcs=(0,)):
    v, s, w, fs = setup(c, n, sym, integralnorm)
    R = RefOF(c, v, s, w, fs, coupling, integralnorm)
    of = OptimumFilter(v, s, 1 / w, fs, coupling=coupling, integralnorm=integralnorm)
    for wc in wcs:
        amp, chi2 = of.ofamp_nodelay(windowcenter=wc)
        t = wc / fs
        c.eq('amplitude is the weighted least-squares amplitude', amp, R.amp(t))
        ref = R.chi2(amp, t)
        c.eq('chi2 is the weighted squared residual', chi2, ref, scale=1 + R.chi2(0, 0))
        # any other amplitude is worse by exactly (difference)^2 * curvature
        if wc == 0:
            a = c.real('a')
            c.eq('chi2 is the minimum over amplitudes', R.chi2(a, t),
                 chi2 + (a - amp) ** 2 * R.norm(), scale=1 + R.chi2(0, 0) + R.chi2(a, t))
    sig = of.energy_resolution()
    c.eq('energy resolution', sig * sig * R.norm(), 1)
    c.lt('energy resolution positive', 0, sig)


def h_func(c, n, coupling, integralnorm, sym, nb):
    v, s, w, fs = setup(c, n, sym, integralnorm)
    if nb:
        v2 = c.reals('u', n)
        sig = c.np.array([v, v2])
        sigs = [v, v2]
        if nb == 1:
            sig, sigs = sig[:1], [v]
    else:
        sig, sigs = v, [v]
    out = ofamp(sig, s, 1 / w, fs, withdelay=False, coupling=coupling, lgcsigma=True,
                integralnorm=integralnorm)
    amp, t0, chi2, sigma = out
    for i, x in enumerate(sigs):
        R = RefOF(c, x, s, w, fs, coupling, integralnorm)
        a = amp[i] if nb == 2 else amp
        ch = chi2[i] if nb == 2 else chi2
        t = t0[i] if nb == 2 else t0
        c.eq('amplitude is the weighted least-squares amplitude', a, R.amp(0))
        c.eq('no delay means zero time', t, 0)
        c.eq('chi2 is the weighted squared residual', ch, R.chi2(a, 0), scale=1 + R.chi2(0, 0))
        c.eq('energy resolution', sigma * sigma * R.norm(), 1)


def h_linear(c, n, coupling, sym):
    """scaling, superposition, pulse injection"""
    v, s, w, fs = setup(c, n, sym)
    u = c.reals('u', n)
    k = c.real('k')

    def fit(x, wc=0):
        return OptimumFilter(x, s, 1 / w, fs, coupling=coupling).ofamp_nodelay(windowcenter=wc)
    a1, c1 = fit(v)
    a2, c2 = fit(u)
    a3, _ = fit(v + u)
    c.eq('superposition', a3, a1 + a2, scale=1 + abs(a1) + abs(a2))
    a4, c4 = fit(k * v)
    c.eq('scaling of the amplitude', a4, k * a1)
    c.eq('scaling of chi2', c4, k * k * c1)
    for m in bins(n):
        inj = c.np.roll(s, m)
        a5, c5 = fit(v + k * inj, m)
        a6, c6 = fit(v, m)
        c.eq('injected pulse adds its amplitude', a5, a6 + k, scale=1 + abs(a6) + abs(k))
        c.eq('injected pulse leaves chi2', c5, c6, scale=1 + abs(c5) + k * k * RefOF(c, v, s, w, fs, coupling).norm())


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for n in (2, 3, 4) + ((5,) if big else ()):
        for cp in ('AC', 'DC'):
            for inorm in (False, True):
                J.append(('class/sym/%d/%s/%s' % (n, cp, inorm), h_class,
                          dict(n=n, coupling=cp, integralnorm=inorm, sym=True, wcs=(0, 1) if n < 4 else (0, -1))))
    for n in (3, 4, 5, 6, 8) + ((10, 12) if big else ()):
        for cp in ('AC', 'DC'):
            for inorm in (False, True):
                J.append(('class/num/%d/%s/%s' % (n, cp, inorm), h_class,
                          dict(n=n, coupling=cp, integralnorm=inorm, sym=False, wcs=tuple(bins(n)))))
    for n, sym in ((2, True), (3, True), (4, True), (5, False), (6, False)):
        for cp in ('AC', 'DC'):
            for inorm in (False, True):
                for nb in ((0, 2) if n != 3 else (0, 1, 2)):
                    J.append(('func/%d/%s/%s/%d' % (n, cp, inorm, nb), h_func,
                              dict(n=n, coupling=cp, integralnorm=inorm, sym=sym, nb=nb)))
    for n, sym in ((3, True), (4, True), (5, False), (6, False)):
        for cp in ('AC', 'DC'):
            J.append(('linear/%d/%s' % (n, cp), h_linear, dict(n=n, coupling=cp, sym=sym)))
    return J


INTS = [(r'class/sym/3/.*', 'v'), (r'class/num/(4|5)/.*', 'v'), (r'func/(3|4)/.*', 'v'), (r'linear/3/.*', 'vu')]
