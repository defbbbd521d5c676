"""P03: a filter object behaves the same whatever was called on it before."""
from qetpy.core._fitting import OptimumFilter
from harness.ref import *

BOUNDS = ('histories: construction with a first trace, up to two fits on it, replacement by a second '
          'trace, up to one fit on that, then any fit, compared with a fresh object; also two fits in '
          'either order and repeated calls without replacement; all method choices made symbolically; '
          'trace lengths 3 and 4, second trace symbolic (first trace rational or symbolic); AC and DC')

OPS = {
    'nodelay': lambda o, k: o.ofamp_nodelay(windowcenter=k % 2),
    'delay': lambda o, k: o.ofamp_withdelay(),
    'window': lambda o, k: o.ofamp_withdelay(nconstrain=2, windowcenter=-1, lgcoutsidewindow=True,
                                             pulse_direction_constraint=1),
    'iter': lambda o, k: o.ofamp_pileup_iterative(1.5, 0, nconstrain=1,
                                                  lgcoutsidewindow=False),
    'stat': lambda o, k: o.ofamp_pileup_stationary(nconstrain=1, lgcoutsidewindow=False, windowcenter=1),
    'base': lambda o, k: o.ofamp_baseline(nconstrain=1),
    'low': lambda o, k: (o.chi2_lowfreq(0.5, 0.25, fcutoff=1.5),),
    'nopulse': lambda o, k: (o.chi2_nopulse(),),
    'eres': lambda o, k: (o.energy_resolution(),),
    'tres': lambda o, k: (o.time_resolution(2.0),),
}
NAMES = list(OPS)


def data(c, n, cp):
    s = c.arr(pulse(n, 1))
    w = c.arr(weights(n))
    p = 1 / w
    return s, p


def concrete(c, n):
    return c.arr([F(3), F(-1, 2), F(7, 4), F(2), F(-3)][:n])


def h_update(c, n, cp, last, pres, seconds, thirds):
    s, p = data(c, n, cp)
    fs = c.num(4)
    u, v = concrete(c, n), c.reals('v', n)
    s0, p0, v0 = s.copy(), p.copy(), v.copy()
    of = OptimumFilter(u, s, p, fs, coupling=cp)
    q1 = c.pick('first', pres)
    q2 = c.pick('second', seconds)
    q3 = c.pick('third', thirds)
    for q in (q1, q2):
        if q != 'none':
            OPS[q](of, 0)
    of.update_signal(v)
    if q3 != 'none':
        OPS[q3](of, 1)
    got = OPS[last](of, 0)
    fresh = OPS[last](OptimumFilter(v, s0, p0, fs, coupling=cp), 0)
    c.eq('result depends only on the current trace', list(got), list(fresh))
    again = OPS[last](of, 0)
    c.eq('repeating a call gives the same result', list(again), list(fresh))
    c.eq('inputs are left unmodified', c.np.concatenate([s, p, v]), c.np.concatenate([s0, p0, v0]))


def h_order(c, n, cp, a):
    """two calls in either order, symbolic trace from the start"""
    s, p = data(c, n, cp)
    fs = c.num(4)
    v = c.reals('v', n)
    v0 = v.copy()
    b = c.pick('other', NAMES)
    o = OptimumFilter(v, s, p, fs, coupling=cp)
    rb = OPS[b](o, 0)
    ra = OPS[a](o, 0)
    rb2 = OPS[b](o, 0)
    ref = OPS[a](OptimumFilter(v, s, p, fs, coupling=cp), 0)
    c.eq('result does not depend on earlier calls', list(ra), list(ref))
    c.eq('earlier result is reproduced later', list(rb2), list(rb))
    c.eq('the trace is left unmodified', v, v0)
    # a second object built from the same inputs is independent
    o2 = OptimumFilter(concrete(c, n), s, p, fs, coupling=cp)
    OPS['delay'](o2, 0)
    c.eq('objects do not share state', list(OPS[a](o, 0)), list(ref))


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for cp in ('AC', 'DC'):
        for n in (3,) + ((4,) if big else ()):
            for last in NAMES:
                pres = ['none', 'delay', 'nodelay', 'stat', 'iter', 'base', 'low', 'nopulse']
                thirds = ['none', 'delay', 'nopulse', 'iter', 'base', 'stat']
                for q2 in ('none', 'delay', 'nodelay', 'stat') if big else ('none', 'delay'):
                    pr = pres
                    if not big and (q2 != 'none' or last == 'window'):
                        pr = ['stat', 'iter', 'base', 'low', 'delay', 'nopulse'][:6 if q2 == 'none' else 4]
                    th = thirds
                    if not big and last in ('window', 'iter', 'base', 'stat', 'delay'):
                        th = ['none', 'delay', 'nopulse', 'iter'][:3 if last != 'delay' else 4]
                    if q2 != 'none' and not big:
                        th = th[:2]
                    J.append(('update/%d/%s/%s/%s' % (n, cp, last, q2), h_update,
                              dict(n=n, cp=cp, last=last, pres=pr, seconds=[q2], thirds=th)))
        for n in (3, 4):
            for a in NAMES:
                J.append(('order/%d/%s/%s' % (n, cp, a), h_order, dict(n=n, cp=cp, a=a)))
    return J
