"""P06: pulse fit with a free constant baseline."""
from qetpy.core._fitting import OptimumFilter
from harness.ref import *

BOUNDS = ('trace lengths 3 and 4 (5 with the impulse template), every unconstrained best bin, windows, '
          'window centres, inside/outside and pulse directions chosen symbolically; trace and sample '
          'rate symbolic; rational templates/PSDs incl. distinct zero-frequency PSD; AC and DC')
ASSUMPTIONS = ['the unconstrained best start time is unique (exact ties are excluded)']


def h(c, n, kind, cp, ncs, outs, pds, wcs):
    v = c.reals('v', n)
    fs = c.real('fs', lo=F(1, 4), hi=4)
    s, w = templ(c, kind, n)
    w = w * c.arr([F(7, 5)] + [1] * (n - 1))
    nc, out, pd, wc = (c.pick('nconstrain', ncs), c.pick('outside', outs), c.pick('direction', pds),
                       c.pick('windowcenter', wcs))
    RA = RefOF(c, v, s, w, fs, 'AC')
    RD = RefOF(c, v, s, w, fs, 'DC')
    d = 1 / RA.df
    nA, chiA = RA.norm(), RA.chi2n([])
    best = c.pick('bestbin', list(range(n)))
    tb = (best - n // 2) / fs
    for b in range(n):
        if b != best:
            c.assume(RA.amp((b - n // 2) / fs) ** 2 < RA.amp(tb) ** 2)
    ab = RA.amp(tb)
    base = ((RA.v[0] - ab * RA.s[0]) / d).real
    res = OptimumFilter(v, s, 1 / w, fs, coupling=cp).ofamp_baseline(
        nconstrain=nc, lgcoutsidewindow=out, pulse_direction_constraint=pd, windowcenter=wc)
    ok = allowed(n, nc, wc, out)
    nD = RD.norm()
    r = RD.resid([], base)
    chi0 = RD.chi2n([], base)

    def amp_at(t):
        return sum((RD.s[k].conjugate() * RD.phase(-t, k) * r[k] * RD.w[k]).real
                   for k in range(n)) * RD.df / nD
    check_search(c, n, fs, ok, pd, amp_at, lambda t: chi0 - amp_at(t) ** 2 * nD,
                 lambda a, t: RD.chi2n([(a, t)], base), res, (0, 0, chi0), scale=1 + chi0 + chiA)
    if nc is None and pd == 0:
        amp, t0, chi2 = res
        c.eq('unconstrained: time of the joint best fit', t0, tb)
        c.eq('unconstrained: amplitude of the joint best fit', amp, ab)
        c.eq('unconstrained: chi2 is the joint minimum', chi2, chiA - ab * ab * nA, scale=1 + chiA)
        a, b2 = c.real('a'), c.real('b')
        # joint minimality over every amplitude and baseline at that time
        rr = RD.chi2n([(a, tb)], b2)
        q = RD.resid([(a, tb)], b2)[0]
        c.eq('unconstrained: other amplitudes and baselines are worse', rr,
             chi2 + (a - amp) ** 2 * nA + (q.conjugate() * q).real * RD.w[0] * RD.df,
             scale=1 + chiA + rr)


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for n, kind, cp in ((3, 0, 'AC'), (3, 1, 'DC'), (4, 0, 'DC'), (4, 1, 'AC')) + (
            ((4, 0, 'AC'), (4, 1, 'DC'), (5, 'delta', 'AC'), (6, 'delta', 'DC')) if big else ()):
        J.append(('free/%s/%d/%s' % (kind, n, cp), h, dict(
            n=n, kind=kind, cp=cp, ncs=[None], outs=[False], pds=[0, 1, -1], wcs=[0])))
        for out in (False, True):
            J.append(('window/%s/%d/%s/%s' % (kind, n, cp, out), h, dict(
                n=n, kind=kind, cp=cp, ncs=[1, 2, 3, n + 1] if n < 4 or big else [1, 2],
                outs=[out], pds=[0, 1] if big or n < 4 else [0],
                wcs=bins(n) if n < 4 else [0, -1])))
    return J
