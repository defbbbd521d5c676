"""P02: the time search returns the best allowed start time."""
from qetpy.core._fitting import OptimumFilter, ofamp
from harness.ref import *

BOUNDS = ('trace length 4 and 5 with every window length 1..n+1 (and none), every window centre, '
          'inside/outside and every pulse direction constraint chosen symbolically; trace samples '
          'symbolic, sample rate symbolic; impulse and pulse-shaped '
          'templates; lengths 6, 8 and 10 with impulse template and selected windows; AC and DC')


def templ(c, kind, n):
    if kind == 'delta':
        return c.arr(delta(n)), c.arr(flat(n))
    return c.arr(pulse(n, kind)), c.arr(weights(n))


def check(c, R, n, ok, pd, res, chi0, tag=''):
    amp, t0, chi2 = res
    good = []
    for b in ok:
        t = (b - n // 2) / R.fs
        a = R.amp(t)
        if pd == 0 or c.fork(pd * a > 0):
            good.append((b, t, a))
    if not good:
        c.eq(tag + 'fallback amplitude', amp, 0)
        c.eq(tag + 'fallback time', t0, 0)
        c.eq(tag + 'fallback chi2 is the no-pulse chi2', chi2, chi0)
        return
    inside = False
    for b, t, a in good:
        if c.fork(abs(t0 * R.fs - (b - n // 2)) < F(1, 4)):
            inside = True
            c.eq(tag + 'start time is on the grid', t0, t)
            c.eq(tag + 'amplitude is the best amplitude at that time', amp, a)
            c.eq(tag + 'chi2 belongs to that amplitude and time', chi2, R.chi2(amp, t),
                 scale=1 + chi0)
            break
    c.true(tag + 'start time is an allowed time', inside)
    for b, t, a in good:
        c.le(tag + 'chi2 is minimal over the allowed times', chi2, R.chi2(a, t))


def h_class(c, n, kind, coupling, ncs, wcs, outs, pds):
    v = c.reals('v', n)
    fs = c.real('fs', pos=True)
    s, w = templ(c, kind, n)
    nc = c.pick('nconstrain', ncs)
    wc = c.pick('windowcenter', wcs)
    out = c.pick('outside', outs)
    pd = c.pick('direction', pds)
    R = RefOF(c, v, s, w, fs, coupling)
    of = OptimumFilter(v, s, 1 / w, fs, coupling=coupling)
    res = of.ofamp_withdelay(nconstrain=nc, lgcoutsidewindow=out, windowcenter=wc,
                             pulse_direction_constraint=pd)
    check(c, R, n, allowed(n, nc, wc, out), pd, res, R.chi2n([]))


def h_func(c, n, kind, coupling, ncs, outs, nb):
    fs = c.real('fs', pos=True)
    s, w = templ(c, kind, n)
    nc = c.pick('nconstrain', ncs)
    out = c.pick('outside', outs)
    ok = allowed(n, nc, 0, out)
    if not ok:
        return
    v = [c.reals('v%d' % i, n) for i in range(max(nb, 1))]
    sig = c.np.array(v) if nb else v[0]
    amp, t0, chi2 = ofamp(sig, s, 1 / w, fs, coupling=coupling, nconstrain=nc, lgcoutsidewindow=out)
    for i, x in enumerate(v):
        R = RefOF(c, x, s, w, fs, coupling)
        res = (amp[i], t0[i], chi2[i]) if nb > 1 else (amp, t0, chi2)
        check(c, R, n, ok, 0, res, R.chi2n([]))


def h_invalid(c, n):
    v = c.arr(pulse(n, 1))
    s, w = templ(c, 0, n)
    of = OptimumFilter(v, s, 1 / w, c.real('fs', pos=True))
    lo, hi = -(n // 2), n - n // 2 - 1
    for bad in (lo - 1, hi + 1, hi + 7):
        c.raises('window centre outside the trace is refused', ValueError,
                 lambda: of.ofamp_withdelay(windowcenter=bad))
    for bad in (0, -1):
        c.raises('non-positive window is refused', ValueError,
                 lambda: of.ofamp_withdelay(nconstrain=bad))
    for bad in (2, -2):
        c.raises('unknown pulse direction is refused', ValueError,
                 lambda: of.ofamp_withdelay(pulse_direction_constraint=bad))
    for wc in (lo, hi):
        of.ofamp_withdelay(windowcenter=wc)


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for n in (4, 5) + ((6,) if big else ()):
        for out in (False, True):
            for pd in (0, 1, -1):
                if n > 4 and pd and not big:
                    J.append(('class/delta/%d/%s/%d' % (n, out, pd), h_class, dict(
                        n=n, kind='delta', coupling='DC', ncs=[2, 3] if pd > 0 else [4],
                        wcs=[0, -2, 1], outs=[out], pds=[pd])))
                    continue
                for part in ([None, 1, 2, n + 1], list(range(3, n + 1))):
                    J.append(('class/delta/%d/%s/%d/%s' % (n, out, pd, part[-1]), h_class, dict(
                        n=n, kind='delta', coupling='DC', ncs=part, wcs=bins(n), outs=[out], pds=[pd])))
    for n, ncs, wcs in ((6, [None, 3, 4], [0, -2, 2]), (8, [3, 5], [1, 3]), (10, [3], [-5, 4])):
        for out in (False, True):
            for pd in (0,) + ((-1, 1) if big and n < 10 else ()):
                J.append(('class/delta/%d/%s/%d' % (n, out, pd), h_class, dict(
                    n=n, kind='delta', coupling='DC', ncs=ncs, wcs=wcs, outs=[out], pds=[pd])))
    for n in (3, 4) + ((5, 6) if big else ()):
        for k in (0, 1):
            for cp in ('AC', 'DC'):
                for out in (False, True):
                    if n > 3 and not big and (cp == 'AC') != out:
                        continue
                    J.append(('class/pulse%d/%d/%s/%s' % (k, n, cp, out), h_class, dict(
                        n=n, kind=k, coupling=cp, ncs=[None, 2, 3], wcs=[0, 1, -1], outs=[out],
                        pds=[0, -1, 1] if n < 4 or big else [0, 1 if k else -1])))
    for n, k, nb, cp in ((4, 'delta', 0, 'DC'), (5, 'delta', 0, 'DC'), (3, 0, 0, 'AC'), (4, 1, 0, 'DC'),
                         (4, 'delta', 2, 'DC'), (3, 0, 2, 'AC'), (4, 1, 1, 'AC'), (6, 'delta', 1, 'DC')):
        for out in (False, True):
            J.append(('func/%s/%d/%d/%s/%s' % (k, n, nb, cp, out), h_func, dict(
                n=n, kind=k, coupling=cp, ncs=[None] + list(range(1, n + 2)), outs=[out], nb=nb)))
    for n in (3, 4, 5, 8):
        J.append(('invalid/%d' % n, h_invalid, dict(n=n)))
    return J
