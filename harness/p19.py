"""P19: complex impedance, admittance and square-wave response of a TES."""
from qetpy.core.didv import _base_didv as D
from harness.ref import *

BOUNDS = ('impedance: 1-3 frequencies, all parameters symbolic; square-wave response: 2-12 samples, 1-3 periods, duty '
          'cycles 1/2, 1/4, 3/4, 1/3, 2/3, symbolic amplitude, frequency, shunt and, for at most one harmonic, all '
          'parameters')
ASSUMPTIONS = ['the total impedance is not zero', 'the loop gain is not one']
N1 = ['rsh', 'rp', 'L']
N2 = N1 + ['r0', 'beta', 'l', 'tau0']
N3 = N2 + ['gratio', 'tau3']
ALL = {1: N1, 2: N2, 3: N3}


def model(f, p, poles, w):
    """documented dV/dI; w = 2 pi i f"""
    z = p['rsh'] + p['rp'] + w * p['L']
    if poles == 1:
        return z
    z = z + p['r0'] * (1 + p['beta'])
    d = 1 + w * p['tau0'] / (1 - p['l'])
    if poles == 3:
        d = d - p['gratio'] / (1 - p['l']) / (1 + w * p['tau3'])
    return z + p['r0'] * (2 + p['beta']) * p['l'] / (1 - p['l']) / d


CONC = dict(rsh=F(1, 2), rp=F(1, 4), L=F(1, 8), r0=F(2), beta=F(1, 3), l=F(5), tau0=F(3, 4), gratio=F(1, 2),
            tau3=F(2, 3))


def params(c, poles, sym):
    p = {}
    for k in ALL[poles]:
        if k in sym:
            lo = {'l': F(2)}.get(k, F(1, 10))
            p[k] = c.real(k, lo=lo, hi=9)
        else:
            p[k] = c.num(CONC[k])
    return p


def h_imp(c, poles, nf, sym, extra):
    p = params(c, poles, sym)
    kw = dict(p)
    if extra == 'ignored':
        kw['dt'] = c.real('dt')
        if poles == 2:
            kw['gratio'] = c.real('gr')         # incomplete three-pole set
        if poles == 1:
            kw['r0'] = c.real('rr')
    f = c.reals('f', nf, lo=-5, hi=5) if nf else c.real('f', lo=-5, hi=5)
    if extra == 'zero':
        f = c.num(0)
        nf = 0
    c.assume(p['l'] > F(3, 2)) if 'l' in p and 'l' in sym else None
    for i, v in enumerate(f if nf else [f]):
        w = 2j * c.pi * v
        want = model(v, p, poles, w)
        z = D.compleximpedance(f, **kw)
        c.eq('impedance is the documented dV/dI', z[i] if nf else z, want)
        y = D.complexadmittance(f, **kw)
        c.eq('admittance is its inverse', (y[i] if nf else y) * want, 1 + 0j)


def h_refuse(c):
    p = {k: c.real(k, pos=True) for k in N3}
    for bad in (['rsh', 'rp'], ['rp', 'L'], ['rsh', 'L', 'r0', 'beta', 'l', 'tau0'], []):
        kw = {k: p[k] for k in bad}
        c.raises('incomplete parameters are refused', ValueError, lambda: D.compleximpedance(1.0, **kw))
        c.raises('incomplete parameters are refused (admittance)', ValueError,
                 lambda: D.complexadmittance(1.0, **kw))
        c.raises('incomplete parameters are refused (response)', ValueError,
                 lambda: D.squarewaveresponse(c.arr([F(0), F(1)]), 1.0, 0.5, **kw))


def h_resp(c, n, m, duty, poles, sym, off):
    """n samples with m periods"""
    np = c.np
    p = params(c, poles, sym)
    amp = c.real('amp', lo=F(1, 10), hi=5)
    sg = c.real('sg', lo=F(1, 4), hi=4) if off else c.num(F(5, 4))
    per = n // m
    t0 = c.real('t0') if off else 0
    t = np.array([c.num(F(i, per)) / sg + t0 for i in range(n)])
    keep = t.copy()
    kw = {} if duty is None else dict(dutycycle=c.num(duty))
    d = F(1, 2) if duty is None else duty
    r = D.squarewaveresponse(t, amp, sg, **kw, **p)
    c.eq('times unmodified', t, keep)
    c.same('length', tuple(r.shape), (n,))
    # wave: -1 for the first part d of the period, 0 after it (times amp rsh)
    want = [0] * n
    for k in range(-(n // 2), (n + 1) // 2):
        if k == 0 or k % m:
            continue
        h = k // m
        cf = 1j * (np.exp(-1j * c.num(2 * h * d) * c.pi) - 1) / (2 * h * c.pi) * -1 * amp * p['rsh']
        if d == F(1, 2) and h % 2 == 0:
            continue
        y = 1 / model(None, p, poles, 2j * c.pi * h * sg)
        for i in range(n):
            want[i] = want[i] + (cf * y * np.exp(1j * c.num(F(2 * k * i % (2 * n), n)) * c.pi)).real
    for i in range(n):
        c.eq('response is the harmonic sum of the square wave through the admittance', r[i], want[i])


def h_std(c, shape, axis):
    np = c.np
    x = c.carr([[0] * shape[1]] * shape[0]) if False else c.complexes('x', shape)
    kw = {} if axis is None else dict(axis=axis)
    s = D.stdcomplex(x, **kw)
    ax = 0 if axis is None else axis
    rows = [[x[i, j] for j in range(shape[1])] for i in range(shape[0])]
    if ax % 2 == 0:
        rows = [list(q) for q in zip(*rows)]
    c.same('shape', tuple(s.shape), (len(rows),))
    for i, q in enumerate(rows):
        for nm, part in (('real', lambda z: z.real), ('imag', lambda z: z.imag)):
            v = [part(z) for z in q]
            mu = sum(v) / len(v)
            c.eq('standard deviation of the %s parts' % nm, part(s[i]) ** 2, sum((u - mu) ** 2 for u in v) / len(v))
            c.le('not negative', 0, part(s[i]))


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for poles in (1, 2, 3):
        J.append(('imp/%d/scalar' % poles, h_imp, dict(poles=poles, nf=0, sym=ALL[poles], extra='')))
        J.append(('imp/%d/zero' % poles, h_imp, dict(poles=poles, nf=0, sym=ALL[poles], extra='zero')))
        J.append(('imp/%d/array' % poles, h_imp, dict(poles=poles, nf=3, sym=ALL[poles], extra='')))
        if poles < 3:
            J.append(('imp/%d/ignored' % poles, h_imp, dict(poles=poles, nf=0, sym=ALL[poles], extra='ignored')))
    J.append(('refuse', h_refuse, {}))
    A = [(2, 1, None, 1, N1, 1), (4, 1, None, 1, N1, 1), (4, 1, F(1, 2), 2, ['rsh', 'l'], 0), (4, 1, None, 3, ['L'], 0),
         (6, 1, None, 1, ['rsh'], 0), (8, 1, None, 1, ['rp'], 0), (8, 2, None, 2, ['r0'], 1), (4, 1, F(1, 4), 1, N1, 1),
         (4, 1, F(3, 4), 2, ['tau0'], 0), (6, 2, F(1, 3), 1, ['L'], 1), (6, 1, F(2, 3), 3, ['rsh'], 0),
         (3, 1, None, 1, N1, 1), (5, 1, None, 1, ['rsh'], 0), (12, 2, None, 1, ['rsh'], 0), (12, 3, F(1, 4), 1, ['L'], 0)]
    A += [(8, 1, F(1, 4), 3, ['rsh'], 0), (10, 1, None, 2, ['rsh'], 0), (12, 2, F(1, 3), 2, ['l'], 0),
          (4, 1, None, 2, N2, 1), (4, 1, None, 3, N3, 1), (4, 1, F(3, 4), 3, N3, 1)]
    if big:
        A += [(12, 1, None, 3, ['rsh'], 0), (8, 1, None, 2, N2, 1), (8, 1, None, 3, N3, 1), (12, 2, F(2, 3), 3, N3, 1),
              (10, 1, None, 3, ['rsh', 'l', 'L'], 1), (6, 1, F(1, 3), 2, N2, 1), (16, 2, F(1, 4), 2, N2, 0),
              (24, 1, None, 1, N1, 1), (20, 1, F(1, 4), 1, N1, 1)]
    for n, m, d, poles, sym, off in A:
        J.append(('resp/%d/%d/%s/%d/%s/%d' % (n, m, d, poles, '+'.join(sym), off), h_resp,
                  dict(n=n, m=m, duty=d, poles=poles, sym=sym, off=off)))
    for sh, ax in (((2, 2), None), ((3, 1), 0), ((2, 3), 1), ((1, 2), -1)):
        J.append(('std/%s/%s' % (sh, ax), h_std, dict(shape=sh, axis=ax)))
    return J
