"""P08: sub-bin interpolation of the start time."""
from qetpy.core._fitting import OptimumFilter
from harness.ref import *

BOUNDS = ('trace lengths 3-5 (6 with the impulse template); every best bin including both ends of '
          'the trace; windows chosen symbolically; trace, sample rate, first-pulse amplitude '
          'symbolic; time search, pile-up and baseline fits; AC and DC')
ASSUMPTIONS = ['the three chi2 samples used do not lie on a straight line']


def h(c, which, n, kind, cp, ncs, wcs, outs, pds):
    v = c.reals('v', n)
    fs = c.real('fs', lo=F(1, 4), hi=4)
    s, w = templ(c, kind, n)
    nc, wc, out, pd = (c.pick('nconstrain', ncs), c.pick('windowcenter', wcs), c.pick('outside', outs),
                       c.pick('direction', pds))
    kw = dict(nconstrain=nc, windowcenter=wc, lgcoutsidewindow=out, pulse_direction_constraint=pd)
    R = RefOF(c, v, s, w, fs, cp)

    def mk():
        return OptimumFilter(v, s, 1 / w, fs, coupling=cp)
    if which == 'delay':
        def fit(i, **k):
            return mk().ofamp_withdelay(interpolate_t0=i, **dict(kw, **k))
    elif which == 'pile':
        a1 = c.real('a1')

        def fit(i, **k):
            return mk().ofamp_pileup_iterative(a1, 0, interpolate_t0=i, **dict(kw, **k))
    else:
        def fit(i, **k):
            return mk().ofamp_baseline(interpolate_t0=i, **dict(kw, **k))
    g = fit(False)
    # which bin was chosen, and was it a fallback?
    ok = allowed(n, nc, wc, out)
    bb = None
    for b in ok:
        if c.fork(abs(g[1] * fs - (b - n // 2)) < F(1, 4)):
            bb = b
            break
    # the samples at the bin and at its circular neighbours, from single-bin windows
    single = dict(nconstrain=1, lgcoutsidewindow=False, pulse_direction_constraint=0)

    def at(b):
        b = (b + n // 2) % n - n // 2 if False else b % n
        return fit(False, windowcenter=b - n // 2, **single)
    isfall = bb is None
    if pd != 0 and not isfall and not c.fork(pd * g[0] > 0):
        isfall = True
    if not ok or isfall:
        r = fit(True)
        c.eq('fallback is not interpolated', list(r), list(g))
        return
    (am, _, cm), (a0, _, c0), (ap, _, cp_) = at(bb - 1), at(bb), at(bb + 1)
    c.eq('grid fit is the single-bin fit', [g[0], g[2]], [a0, c0], scale=1 + abs(c0) + abs(a0))
    curv = cp_ - 2 * c0 + cm
    c.assume(curv * curv > F(1, 10 ** 6))
    amp, t0, chi2 = fit(True)
    x = (cm - cp_) / (2 * curv)              # vertex, in bins
    c.eq('time is the vertex of the chi2 parabola', t0, (bb - n // 2 + x) / fs, scale=1 + abs(x) / fs)

    def par(y0, y1, y2):
        return y1 + x * (y2 - y0) / 2 + x * x * (y2 - 2 * y1 + y0) / 2
    c.eq('chi2 is the parabola at that time', chi2, par(cm, c0, cp_), scale=1 + abs(c0) + abs(par(cm, c0, cp_)))
    c.eq('amplitude is its parabola at that time', amp, par(am, a0, ap), scale=1 + abs(par(am, a0, ap)) + abs(a0))
    if nc is None and pd == 0:
        # x*curv*2 = cm - cp_;  |x| <= 1/2  <=>  |cm - cp_| <= curv when curv > 0
        c.lt('unconstrained: the vertex is a minimum', 0, curv)
        c.le('unconstrained: at most half a sample later', cm - cp_, curv)
        c.le('unconstrained: at most half a sample earlier', cp_ - cm, curv)
        c.eq('unconstrained: chi2 is lowered by the parabola', (c0 - chi2) * 8 * curv, (cm - cp_) ** 2,
             scale=1 + (cm - cp_) ** 2 + abs(c0 * curv))


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for which in ('delay', 'pile', 'base'):
        for n, kind, cp in ((3, 0, 'AC'), (4, 1, 'AC'), (4, 'delta', 'DC')) + (
                ((3, 1, 'DC'), (5, 'delta', 'DC'), (6, 'delta', 'DC'), (5, 0, 'AC')) if big else ()):
            J.append(('free/%s/%d/%s/%s' % (which, n, kind, cp), h, dict(
                which=which, n=n, kind=kind, cp=cp, ncs=[None], wcs=[0], outs=[False], pds=[0])))
            if which == 'base' and n == 4 and not big:
                continue
            J.append(('win/%s/%d/%s/%s' % (which, n, kind, cp), h, dict(
                which=which, n=n, kind=kind, cp=cp, ncs=[1, 2, n], wcs=bins(n) if n < 4 or big else [-(n // 2), n - n // 2 - 1],
                outs=[False, True], pds=[0])))
            J.append(('dir/%s/%d/%s/%s' % (which, n, kind, cp), h, dict(
                which=which, n=n, kind=kind, cp=cp, ncs=[None, 1], wcs=[0], outs=[False],
                pds=[1, -1] if big or n < 4 else [1])))
    return J
