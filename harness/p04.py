"""P04: stand-alone functions, the filter object and batches agree."""
from qetpy.core._fitting import (OptimumFilter, ofamp, ofamp_pileup, ofamp_pileup_stationary,
                                 chi2lowfreq, chi2_nopulse)
from harness.ref import *

BOUNDS = ('trace lengths 3 and 4 (2 with symbolic template/PSD), windows and inside/outside chosen '
          'symbolically, AC and DC, both normalisations; traces, sample rate, first pulse symbolic; '
          'batches of 1-3 traces')


def setup(c, n, sym, kind=1):
    if sym:
        s = c.reals('s', n)
        tot = s[0]
        for x in s[1:]:
            tot = tot + x
        c.assume(tot * tot > F(1, 100))
        w = c.reals('w', n, pos=True)
    else:
        s, w = templ(c, kind, n)
    return s, 1 / w, c.real('fs', lo=F(1, 4), hi=4)


def h_fit(c, n, sym, kind, cp, inorm, withdelay):
    s, p, fs = setup(c, n, sym, kind)
    v = c.reals('v', n)
    nc = c.pick('nconstrain', [None, 1, 2, n + 2] if withdelay else [None])
    out = c.pick('outside', [False, True] if withdelay else [False])
    if not allowed(n, nc, 0, out):
        return
    a, t, x, sig = ofamp(v, s, p, fs, withdelay=withdelay, coupling=cp, lgcsigma=True, nconstrain=nc,
                         lgcoutsidewindow=out, integralnorm=inorm)
    of = OptimumFilter(v, s, p, fs, coupling=cp, integralnorm=inorm)
    if withdelay:
        b = of.ofamp_withdelay(nconstrain=nc, lgcoutsidewindow=out)
    else:
        a2, x2 = of.ofamp_nodelay()
        b = a2, 0, x2
    c.eq('single-pulse fit agrees', [a, t, x], list(b), scale=1 + of.chi2_nopulse() + abs(b[0]))
    c.eq('energy resolution agrees', sig, of.energy_resolution())
    r = ofamp(v, s, p, fs, withdelay=withdelay, coupling=cp, nconstrain=nc, lgcoutsidewindow=out,
              integralnorm=inorm)
    c.true('three values without the resolution', len(r) == 3)
    c.eq('asking for the resolution changes nothing else', list(r), [a, t, x])


def h_pile(c, n, kind, cp, given):
    s, p, fs = setup(c, n, False, kind)
    v = c.reals('v', n)
    nc = c.pick('nconstrain', [None, 2] if n < 4 else [2])
    out = c.pick('outside', [False, True])
    of = OptimumFilter(v, s, p, fs, coupling=cp)
    if given:
        kw = dict(a1=c.real('a1'), t1=c.pick('t1bin', [0, 1, -1]) / fs)
        a1, t1 = kw['a1'], kw['t1']
        r = ofamp_pileup(v, s, p, fs, coupling=cp, nconstrain2=nc, lgcoutsidewindow=out, **kw)
    else:
        n1 = c.pick('nconstrain1', [None, 1])
        r = ofamp_pileup(v, s, p, fs, coupling=cp, nconstrain1=n1, nconstrain2=nc, lgcoutsidewindow=out)
        a1, t1, _ = of.ofamp_withdelay(nconstrain=n1)
    b = of.ofamp_pileup_iterative(a1, t1, nconstrain=nc, lgcoutsidewindow=out)
    c.eq('pile-up fit agrees', list(r), [a1, t1] + list(b), scale=1 + of.chi2_nopulse() + a1 * a1)
    # default window mode is the same
    r = ofamp_pileup(v, s, p, fs, a1=a1, t1=t1, coupling=cp, nconstrain2=2)
    b = of.ofamp_pileup_iterative(a1, t1, nconstrain=2)
    c.eq('pile-up fit agrees with default window mode', list(r)[2:], list(b),
         scale=1 + of.chi2_nopulse() + a1 * a1)


def h_stat(c, n, kind, cp):
    s, p, fs = setup(c, n, False, kind)
    v = c.reals('v', n)
    nc = c.pick('nconstrain', [None, 1, 2])
    out = c.pick('outside', [False, True])
    r = ofamp_pileup_stationary(v, s, p, fs, coupling=cp, nconstrain=nc, lgcoutsidewindow=out)
    of = OptimumFilter(v, s, p, fs, coupling=cp)
    b = of.ofamp_pileup_stationary(nconstrain=nc, lgcoutsidewindow=out)
    c.eq('stationary pile-up fit agrees', list(r), list(b), scale=1 + of.chi2_nopulse())


def h_chi(c, n, sym, cp):
    s, p, fs = setup(c, n, sym)
    v = c.reals('v', n)
    a, t = c.real('a'), c.real('t')
    of = OptimumFilter(v, s, p, fs, coupling=cp)
    fc = c.pick('cut', [F(1, 4), F(1, 2), F(3, 4)])
    c.eq('low-frequency chi2 agrees', chi2lowfreq(v, s, a, t, p, fs, fcutoff=fs * fc, coupling=cp),
         of.chi2_lowfreq(a, t, fcutoff=fs * fc), scale=1 + of.chi2_nopulse() + a * a / fs)
    c.eq('no-pulse chi2 agrees', chi2_nopulse(v, p, fs, coupling=cp), of.chi2_nopulse())
    # defaults (10 kHz cutoff, AC coupling)
    of = OptimumFilter(v, s, p, fs * 10000)
    c.eq('default cutoff and coupling agree', chi2lowfreq(v, s, a, t, p, fs * 10000),
         of.chi2_lowfreq(a, t), scale=1 + of.chi2_nopulse() + a * a / fs)


def h_batch(c, n, kind, cp, nb, withdelay, inorm):
    s, p, fs = setup(c, n, False, kind)
    V = [c.reals('v%d' % i, n) for i in range(nb)]
    nc = c.pick('nconstrain', [None, 2] if withdelay else [None])
    out = c.pick('outside', [False, True] if withdelay else [False])
    kw = dict(withdelay=withdelay, coupling=cp, nconstrain=nc, lgcoutsidewindow=out, integralnorm=inorm,
              lgcsigma=True)
    A, T, X, sig = ofamp(c.np.array(V), s, p, fs, **kw)
    if nb == 1:
        A, T, X = [A], [T], [X]
    for i, v in enumerate(V):
        a, t, x, sg = ofamp(v, s, p, fs, **kw)
        sc = 1 + chi2_nopulse(v, p, fs, coupling=cp) + abs(a)
        c.eq('batch row equals the single fit', [A[i], T[i], X[i], sig], [a, t, x, sg], scale=sc)
    if nb > 1:
        am = c.np.array([c.real('a%d' % i) for i in range(nb)])
        tm = c.np.array([c.real('t%d' % i) for i in range(nb)])
        L = chi2lowfreq(c.np.array(V), s, am, tm, p, fs, fcutoff=fs / 3, coupling=cp)
        N = chi2_nopulse(c.np.array(V), p, fs, coupling=cp)
        for i, v in enumerate(V):
            c.eq('batch chi2 equals the single chi2', [L[i], N[i]],
                 [chi2lowfreq(v, s, am[i], tm[i], p, fs, fcutoff=fs / 3, coupling=cp),
                  chi2_nopulse(v, p, fs, coupling=cp)], scale=1 + N[i] + am[i] ** 2 / fs)


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for cp in ('AC', 'DC'):
        for wd in (False, True):
            for inorm in (False, True):
                for n, sym, kind in ((2, True, 0), (3, False, 0), (4, False, 1), (4, False, 'delta')) + (
                        ((3, True, 0), (5, False, 0)) if big or not wd else ()):
                    if kind == 'delta' and inorm and cp == 'AC' and not big:
                        continue
                    if sym and wd and not big:
                        continue
                    J.append(('fit/%d/%s/%s/%s/%s/%s' % (n, sym, kind, cp, wd, inorm), h_fit, dict(
                        n=n, sym=sym, kind=kind, cp=cp, inorm=inorm, withdelay=wd)))
                for n, kind, nb in ((3, 0, 1), (3, 1, 2), (4, 'delta', 2)) + (((3, 0, 3), (4, 1, 3)) if not wd or big else ()):
                    J.append(('batch/%d/%s/%d/%s/%s/%s' % (n, kind, nb, cp, wd, inorm), h_batch, dict(
                        n=n, kind=kind, cp=cp, nb=nb, withdelay=wd, inorm=inorm)))
        for n, kind in ((3, 0), (4, 1)):
            for g in (True, False):
                J.append(('pile/%d/%s/%s' % (n, cp, g), h_pile, dict(n=n, kind=kind, cp=cp, given=g)))
        for n, kind in ((3, 1), (4, 0), (5, 'delta')):
            J.append(('stat/%d/%s' % (n, cp), h_stat, dict(n=n, kind=kind, cp=cp)))
        for n, sym in ((2, True), (3, True), (4, False), (5, False), (6, False)):
            J.append(('chi/%d/%s' % (n, cp), h_chi, dict(n=n, sym=sym, cp=cp)))
    return J
