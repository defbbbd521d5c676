"""P15: offsets, slopes, powers, absorbed energies and thermal conductance."""
from qetpy.utils import _utils as U
from scipy import constants
from harness.ref import *

BOUNDS = ('1-3 traces of 1-8 samples (and stacks with a channel axis), all samples, biases, resistances and '
          'temperatures symbolic; baselines from every index split; sampling/generator frequencies from a list that '
          'includes rounding-sensitive pairs; power-law exponents 1-6')
ASSUMPTIONS = ['resistances, biases and temperatures positive, Tc above the bath temperature',
               'covariance matrices symmetric']


def mean(v):
    return sum(v[1:], v[0]) / len(v)


def h_offset(c, nt, n, nc=0):
    x = c.reals('x', (nt, nc, n) if nc else (nt, n))
    keep = x.copy()
    kind = c.pick('didv', ['no', 'default', (F(49), F(49)), (F(49), F(3)), (F(1000), F(60)), (F(7), F(3)),
                           (F(10), F(5)), (F(10), F(4)), (F(9), F(5)), (F(3), F(2)), (F(4), F(1))])
    m = n
    if kind in ('no', 'default'):
        off, std = U.calc_offset(x) if kind == 'default' else U.calc_offset(x, fs=7.0, sgfreq=3.0)
    else:
        fs, sg = kind
        per = int(F(n) * sg / fs)
        m = int(per * fs / sg)
        if m == 0:
            return
        off, std = U.calc_offset(x, fs=float(fs), sgfreq=float(sg), is_didv=True)
    for ch in range(nc or 1):
        tr = [x[i, ch] if nc else x[i] for i in range(nt)]
        ms = [mean(list(t[:m])) for t in tr]
        mu = mean(ms)
        var = mean([(a - mu) ** 2 for a in ms])
        o = off[ch] if nc else off
        s = std[ch] if nc else std
        c.eq('offset: mean over traces and whole periods', o, mu)
        c.eq('offset: error is the standard deviation of the trace means over sqrt(traces)', s * s * nt, var,
             scale=1 + mu * mu + sum([a * a for a in ms], 0))
        c.le('offset: error is not negative', 0, s)
    c.eq('offset: input unmodified', x, keep)


def h_slope(c, n):
    x, y = c.reals('x', n), c.reals('y', n)
    how = c.pick('means', ['default', True, False])
    xm, ym = mean(list(x)), mean(list(y))
    sxx = sum((v - xm) ** 2 for v in x)
    c.assume(sxx > F(1, 100))
    if how is False:
        x2 = c.carr([v - xm for v in x])
        s = U.slope(x2, y, removemeans=False)
    else:
        s = U.slope(x, y, **({} if how == 'default' else dict(removemeans=how)))
    c.eq('slope: covariance over variance', s * sxx, sum((x[i] - xm) * (y[i] - ym) for i in range(n)),
         scale=1 + abs(sxx) + sum(abs(v) for v in x) * sum(abs(v) for v in y))
    # a line is recovered
    a, b = c.real('a'), c.real('b')
    ln = c.carr([a + b * v for v in x])
    c.eq('slope: slope of a straight line', U.slope(x, ln), b)
    # least squares: no other slope does better
    q = c.real('other')
    r = lambda m: sum((y[i] - ym - m * (x[i] - xm)) ** 2 for i in range(n))
    if n <= 3:
        c.le('slope: least squares', r(s), r(q))


def bias(c):
    return dict(ioffset=c.real('ioffset'), qetbias=c.real('qetbias', pos=True),
                rload=c.real('rload', pos=True), rsh=c.real('rsh', pos=True))


def power(i, b):
    v = i - b['ioffset']
    return v * b['qetbias'] * b['rsh'] - b['rload'] * v * v


def h_power(c, shape):
    x = c.reals('x', shape)
    b = bias(c)
    p = U.powertrace_simple(x, **b)
    c.same('power: one value per sample', tuple(p.shape), tuple(shape))
    for k in c_ind(shape):
        c.eq('power: Joule power at the measured current', p[k], power(x[k], b))


def c_ind(shape):
    import itertools
    return list(itertools.product(*[range(s) for s in shape]))


def h_energy(c, shape):
    x = c.reals('x', shape)
    n = shape[-1]
    b = bias(c)
    keep = x.copy()
    kind = c.pick('baseline', ['given', 'pre', 'both'])
    how = c.pick('time', ['fs', 'time'])
    rows = c_ind(shape[:-1])
    kw = {}
    if kind == 'given':
        base = c.reals('base', tuple(shape[:-1]) + (1,))
        kw['baseline'] = base
        bl = {r: base[r + (0,)] for r in rows}
    else:
        pre = c.pick('pre', list(range(1, n + 1)))
        post = c.pick('post', [n] if kind == 'pre' else list(range(0, n + 1)))
        kw['indbasepre'] = pre
        if kind == 'both':
            kw['indbasepost'] = post
        bl = {r: mean(list(x[r][:pre]) + (list(x[r][post:]) if kind == 'both' else [])) for r in rows}
    if how == 'fs':
        fs = c.real('fs', pos=True)
        kw['fs'] = fs
        dt = [1 / fs] * (n - 1)
    else:
        t = c.reals('t', n)
        kw['time'] = t
        dt = [t[i + 1] - t[i] for i in range(n - 1)]
    e = U.energy_absorbed(x, **b, **kw)
    ev = F(1602176634, 10 ** 28)
    for r in rows:
        p0 = power(bl[r], b)
        d = [p0 - power(x[r + (i,)], b) for i in range(n)]
        want = sum([(d[i] + d[i + 1]) / 2 * dt[i] for i in range(n - 1)], 0 * p0)
        got = e[r] if rows != [()] else e
        c.eq('energy: integral of the drop in Joule power, in eV', got * ev, want)
    c.eq('energy: input unmodified', x, keep)


def h_energy_err(c):
    x = c.reals('x', 3)
    b = bias(c)
    c.raises('energy: baseline or baseline region is required', ValueError,
             lambda: U.energy_absorbed(x, fs=1.0, **b))
    c.raises('energy: sample rate or times are required', ValueError,
             lambda: U.energy_absorbed(x, indbasepre=1, **b))
    c.raises('energy: post-pulse region alone is not enough', ValueError,
             lambda: U.energy_absorbed(x, indbasepost=1, fs=1.0, **b))


def h_muon(c, n, nb):
    x = c.reals('x', n)
    qb, rn, rl, rsh = [c.real(k, pos=True) for k in ('qetbias', 'rn', 'rload', 'rsh')]
    full = c.pick('full', [True, False, 'default'])
    dflt = c.pick('default rsh', [False, True])
    if dflt:
        rsh = F(1, 200)
    top = 0
    for i in range(1, n):
        if c.fork(x[i] > x[top]):
            top = i
    base = mean(list(x[:nb]))
    sat = mean(list(x[top:top + 200]))
    vb = qb * rsh
    inorm = vb / (rl + rn)
    i0 = inorm - (sat - base)
    c.assume(abs(i0) > F(1, 1000))
    kw = {} if dflt else dict(rsh=rsh)
    if full != 'default':
        kw['lgcfullrtn'] = full
    r = U.get_offset_from_muon(x, qb, rn, rl, nbaseline=nb, **kw)
    if full is False:
        c.eq('muon: current offset', r, base - i0)
        return
    off, r0, i, p0 = r
    c.eq('muon: quiescent current lies below the normal-state current by the saturated pulse', i, i0)
    c.eq('muon: current offset', off, base - i0)
    c.eq('muon: loop equation', (r0 + rl) * i0, vb)
    c.eq('muon: quiescent power is the Joule power', p0, i0 * i0 * r0)


def h_g(c, n):
    p0, tb, d = c.real('p0', pos=True), c.real('tbath', lo=F(1, 10), hi=3), c.real('dt', lo=F(1, 10), hi=3)
    tc = tb + d
    kw = {} if (n == 5 and c.pick('default n', [True, False])) else dict(n=n)
    den = tc ** n - tb ** n
    gref = n * p0 * tc ** (n - 1) / den
    how = c.pick('errors', ['none', 'p0_err', 'cov'])
    if how == 'none':
        g, e = U.estimate_g(p0, tc, tb, **kw)
        c.eq('g: no error by default', e, 0)
    elif how == 'p0_err':
        err = c.real('p0_err')
        g, e = U.estimate_g(p0, tc, tb, p0_err=err, **kw)
        c.eq('g: error from the power alone', e * p0, abs(err) * gref)
    else:
        s = c.reals('s', 6)
        cov = c.carr([s[0], s[1], s[2], s[1], s[3], s[4], s[2], s[4], s[5]]).reshape(3, 3)
        dp = n * tc ** (n - 1) / den
        dtc = (n * (n - 1) * p0 * tc ** (n - 2) if n > 1 else 0 * p0) / den \
            - n * p0 * tc ** (n - 1) * n * tc ** (n - 1) / den ** 2
        dtb = n * p0 * tc ** (n - 1) * n * tb ** (n - 1) / den ** 2
        j = [dp, dtc, dtb]
        var = sum(j[a] * j[b] * cov[a, b] for a in range(3) for b in range(3))
        c.assume(var > F(1, 100))
        g, e = U.estimate_g(p0, tc, tb, cov=cov, **kw)
        c.eq('g: error propagated through the covariance', e * e, var)
        c.lt('g: error positive', 0, e)
    c.eq('g: derivative of the power law', g, gref)


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for nt, n in ((1, 1), (1, 3), (2, 4), (3, 5), (2, 8)) + (((4, 6), (2, 12)) if big else ()):
        J.append(('offset/%d/%d' % (nt, n), h_offset, dict(nt=nt, n=n)))
    for nt, nc, n in ((2, 2, 4), (3, 2, 3), (2, 3, 2), (4, 1, 2)):
        J.append(('offset/%d/%d/%d' % (nt, nc, n), h_offset, dict(nt=nt, n=n, nc=nc)))
    for n in (2, 3, 4) + ((5, 6) if big else ()):
        J.append(('slope/%d' % n, h_slope, dict(n=n)))
    for sh in ((1,), (4,), (2, 3), (2, 2, 2)):
        J.append(('power/%s' % 'x'.join(map(str, sh)), h_power, dict(shape=sh)))
    for sh in ((2,), (4,), (2, 3), (2, 2, 3)) + (((6,), (3, 2, 4)) if big else ()):
        J.append(('energy/%s' % 'x'.join(map(str, sh)), h_energy, dict(shape=sh)))
    J.append(('energy/errors', h_energy_err, {}))
    for n, nb in ((1, 1), (3, 1), (4, 2), (3, 6000)) + (((5, 3), (6, 2)) if big else ()):
        J.append(('muon/%d/%d' % (n, nb), h_muon, dict(n=n, nb=nb)))
    J.append(('muon/202/1', h_muon_long, {}))
    for n in (1, 2, 4, 5) + ((3, 6) if big else ()):
        J.append(('g/%d' % n, h_g, dict(n=n)))
    return J


def h_muon_long(c):
    """the saturated region is 200 samples long"""
    n = 203
    x = c.arr([F(0)] * n)
    x[0], x[1], x[200], x[201], x[202] = [c.real('x%d' % i, lo=-1, hi=1) for i in range(5)]
    x[1] = c.num(F(5))
    qb, rn, rl = [c.real(k, pos=True) for k in ('qetbias', 'rn', 'rload')]
    off = U.get_offset_from_muon(x, qb, rn, rl, rsh=1.0, nbaseline=1, lgcfullrtn=False)
    i0 = qb / (rl + rn) - ((5 + x[200]) / 200 - x[0])
    c.eq('muon: saturated level is the mean of 200 samples from the peak', off, x[0] - i0)


INTS = [(r'offset/./[1345]|offset/././.|(slope|power|energy)/.*', ('x', 'y', 'base'))]
