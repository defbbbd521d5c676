"""P05: pile-up fits."""
from qetpy.core._fitting import (OptimumFilter, ofamp_pileup, ofamp_pileup_stationary,
                                 ofamp)
from harness.ref import *

BOUNDS = ('trace lengths 3-5 (search over all allowed bins, windows and pulse directions chosen '
          'symbolically) and 4-6 with single-bin windows; trace samples, first-pulse amplitude, '
          'sample rate and first-pulse time (any real, not only bin multiples) symbolic; rational '
          'templates/PSDs; AC and DC; class methods and stand-alone functions')


def run_iter(c, which, v, s, w, fs, cp, a1, t1, nc, out, pd, wc):
    if which == 'class':
        of = OptimumFilter(v, s, 1 / w, fs, coupling=cp)
        a2, t2, chi2 = of.ofamp_pileup_iterative(
            a1, t1, nconstrain=nc, lgcoutsidewindow=out, pulse_direction_constraint=pd,
            windowcenter=wc)
    else:
        b1, u1, a2, t2, chi2 = ofamp_pileup(v, s, 1 / w, fs, a1=a1, t1=t1, coupling=cp,
                                            nconstrain2=nc, lgcoutsidewindow=out)
        c.eq('first pulse is passed through', [b1, u1], [a1, t1])
    return a2, t2, chi2


def h_iter(c, which, n, kind, cp, ncs, outs, pds, wcs, t1mode):
    v = c.reals('v', n)
    fs = c.real('fs', lo=F(1, 4), hi=4)
    a1 = c.real('a1')
    s, w = templ(c, kind, n)
    nc, out, pd, wc = (c.pick('nconstrain', ncs), c.pick('outside', outs), c.pick('direction', pds),
                       c.pick('windowcenter', wcs))
    ok = allowed(n, nc, wc, out)
    if which == 'func' and not ok:
        return
    if t1mode == 'bin':
        t1 = c.pick('t1bin', bins(n)) / fs
    else:
        t1 = c.real('t1', lo=-F(n, 8), hi=F(n, 8))
        c.assume(t1 * fs < F(n, 2))
        c.assume(t1 * fs > -F(n, 2))
    R = RefOF(c, v, s, w, fs, cp)
    base = c.arr([0] * n)
    res = run_iter(c, which, v, s, w, fs, cp, a1, t1, nc, out, pd, wc)

    def amp_at(t):
        num = den = 0
        r = R.resid([(a1, t1)])
        for k in range(n):
            num = num + (R.s[k].conjugate() * R.phase(-t, k) * r[k] * R.w[k]).real
            den = den + (R.s[k].conjugate() * R.s[k] * R.w[k]).real
        return num / den
    chi0 = R.chi2n([(a1, t1)])
    nn = R.norm()
    check_search(c, n, fs, ok, pd, amp_at,
                 lambda t: chi0 - amp_at(t) ** 2 * nn,
                 lambda a, t: R.chi2n([(a1, t1), (a, t)]),
                 res, (0, 0, chi0), scale=1 + chi0)


def h_stat(c, which, n, kind, cp, ncs, outs, wcs):
    v = c.reals('v', n)
    fs = c.real('fs', lo=F(1, 4), hi=4)
    s, w = templ(c, kind, n)
    nc, out, wc = c.pick('nconstrain', ncs), c.pick('outside', outs), c.pick('windowcenter', wcs)
    ok = allowed(n, nc, wc, out)
    if not ok:
        return
    R = RefOF(c, v, s, w, fs, cp)
    if which == 'class':
        a1, a2, t2, chi2 = OptimumFilter(v, s, 1 / w, fs, coupling=cp).ofamp_pileup_stationary(
            nconstrain=nc, lgcoutsidewindow=out, windowcenter=wc)
    else:
        a1, a2, t2, chi2 = ofamp_pileup_stationary(v, s, 1 / w, fs, coupling=cp, nconstrain=nc,
                                                   lgcoutsidewindow=out)
    N = R.norm()
    chi0 = R.chi2n([])
    B0 = R.amp(0) * N

    def corr(t):
        return sum((R.s[k].conjugate() * R.s[k] * R.w[k] * R.phase(t, k)).real
                   for k in range(n)) * R.df

    def best(b):
        """normal equations for two simultaneous pulses at 0 and t"""
        if b == n // 2:
            return None, None, chi0 - B0 * B0 / N
        t = (b - n // 2) / fs
        rho, B = corr(t), R.amp(t) * N
        det = N * N - rho * rho
        x, y = (B0 * N - rho * B) / det, (B * N - rho * B0) / det
        return x, y, chi0 - x * B0 - y * B

    inside = False
    for b in ok:
        t = (b - n // 2) / fs
        if c.fork(abs(t2 * fs - (b - n // 2)) < F(1, 4)):
            inside = True
            c.eq('time is on the grid', t2, t)
            c.eq('chi2 is the two-pulse chi2 of the returned amplitudes', chi2,
                 R.chi2n([(a1, 0), (a2, t)]), scale=1 + chi0)
            x, y, m = best(b)
            if x is None:
                c.eq('coincident pulses share the amplitude', a1 + a2, R.amp(0))
            else:
                c.eq('both amplitudes are the joint least-squares amplitudes', [a1, a2], [x, y],
                     scale=1 + abs(x) + abs(y))
            break
    c.true('time is an allowed time', inside)
    for b in ok:
        c.le('chi2 is minimal over times and amplitudes', chi2, best(b)[2])


def h_first(c, n, cp, missing):
    """the stand-alone function finds the first pulse itself when it is not given"""
    v = c.reals('v', n)
    fs = c.real('fs', pos=True)
    s, w = templ(c, 0, n)
    nc1 = c.pick('nconstrain1', [None, 1])
    kw = dict(a1=c.real('a1')) if missing == 't1' else (dict(t1=c.real('t1')) if missing == 'a1' else {})
    a1, t1, a2, t2, chi2 = ofamp_pileup(v, s, 1 / w, fs, coupling=cp, nconstrain1=nc1,
                                        nconstrain2=1, **kw)
    b1, u1, _ = ofamp(v, s, 1 / w, fs, coupling=cp, nconstrain=nc1)
    c.eq('first pulse is the single-pulse fit', [a1, t1], [b1, u1])
    R = RefOF(c, v, s, w, fs, cp)
    c.eq('chi2 is the two-pulse chi2', chi2, R.chi2n([(a1, t1), (a2, t2)]), scale=1 + R.chi2n([]))


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for which in ('class', 'func'):
        pds, wcs = ([0, 1, -1], [0, 1, -1]) if which == 'class' else ([0], [0])
        for n, kind, cp in ((3, 0, 'AC'), (3, 1, 'DC'), (4, 'delta', 'DC'), (4, 0, 'AC')) + (
                ((5, 1, 'DC'), (5, 0, 'AC')) if big else ()):
            for out in (True, False):
                for pd in pds:
                    J.append(('iter/%s/%d/%s/%s/%s/%d' % (which, n, kind, cp, out, pd), h_iter, dict(
                        which=which, n=n, kind=kind, cp=cp,
                        ncs=[None, 1, 2, 3, n] if pd == 0 or big else [None, 2],
                        outs=[out], pds=[pd], wcs=wcs if pd <= 0 or big else [0],
                        t1mode='bin')))
        for n, kind, cp in ((4, 0, 'AC'), (4, 1, 'DC'), (5, 0, 'DC'), (5, 1, 'AC'), (6, 0, 'AC')):
            J.append(('time/%s/%d/%s/%s' % (which, n, kind, cp), h_iter, dict(
                which=which, n=n, kind=kind, cp=cp, ncs=[1], outs=[False], pds=[0],
                wcs=bins(n) if which == 'class' else [0], t1mode='real')))
        for n, kind, cp in ((3, 0, 'DC'), (3, 1, 'AC'), (4, 0, 'AC'), (4, 1, 'DC'), (5, 'delta', 'DC'), (5, 'delta', 'AC'), (6, 'delta', 'AC')):
            for out in (True, False):
                J.append(('stat/%s/%d/%s/%s/%s' % (which, n, kind, cp, out), h_stat, dict(
                    which=which, n=n, kind=kind, cp=cp,
                    ncs=([None] if not out else []) + list(range(1, n + 1)), outs=[out],
                    wcs=[0, 1, -1] if which == 'class' and n < 5 else [0])))
    for cp in ('AC', 'DC'):
        for m in ('both', 'a1', 't1'):
            J.append(('first/%s/%s' % (cp, m), h_first, dict(n=3, cp=cp, missing=m)))
    return J
