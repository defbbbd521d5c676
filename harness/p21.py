"""P21: dIdV fits: minimised function, bounds, results."""
import warnings
import numpy
import scipy.optimize
from qetpy.core.didv import _base_didv as D
from qetpy.core.didv import _didv as DD
from harness.ref import *
from harness.p19 import model

warnings.simplefilter('ignore')
numpy.seterr(all='ignore')

BOUNDS = ('1-, 2- and 3-pole fits of 4-8 frequencies with symbolic mean trace, admittance and errors; the fit function '
          'at a symbolic point (delays in rational numbers of samples); fitted parameters with symbolic poles; orders of '
          'up to four fits')
ASSUMPTIONS = ['scipy least_squares is a recorder that returns an arbitrary point, fsolve returns the true poles (the '
               'equations it is given are checked to hold exactly there)',
               'the overshoot and the top-slope step of the mean trace are not zero',
               'fall times are real']
NAMES = {1: ['A', 'tau2', 'dt'], 2: ['A', 'B', 'tau1', 'tau2', 'dt'],
         3: ['A', 'B', 'C', 'tau1', 'tau2', 'tau3', 'dt']}
SS = {1: ['rsh', 'rp', 'L', 'dt'], 2: ['rsh', 'rp', 'r0', 'beta', 'l', 'L', 'tau0', 'dt'],
      3: ['rsh', 'rp', 'r0', 'beta', 'l', 'L', 'tau0', 'gratio', 'tau3', 'dt']}


def dvdi(p, w):
    """w = 2 pi i f"""
    z = p['A'] * (1 + w * p['tau2'])
    if 'B' in p:
        d = 1 + w * p['tau1']
        if 'C' in p:
            d = d - p['C'] / (1 + w * p['tau3'])
        z = z + p['B'] / d
    return z


def fitted(c, poles, tag, sym):
    """fit parameters with their fall times"""
    v = lambda n, d, **k: c.real(tag + n, **k) if sym else c.num(d)
    A, t2 = v('A', F(3, 2), lo=F(1, 2), hi=4), v('tau2', F(1, 2), lo=F(1, 4), hi=4)
    dt = c.real(tag + 'dt', lo=-3, hi=3)
    if poles == 1:
        return dict(A=A, tau2=t2, dt=dt), [t2]
    t1 = v('tau1', F(-3), lo=-9, hi=-5)
    p = v('pole', F(2, 3), lo=F(1, 8), hi=2)
    if poles == 2:
        s = p * p / (p * (t1 + t2) - t1 * t2)
        B = A / s - A
        q = s * t1 * t2 / p
        return dict(A=A, B=B, tau1=t1, tau2=t2, dt=dt), [p, q]
    t3 = v('tau3', F(5, 4), lo=F(5, 2) * 2, hi=9)
    q = v('pole2', F(4), lo=3, hi=5)
    rho = t1 * t2 * t3 / (t1 * t2 + t1 * t3 + t2 * t3)
    c.assume(t1 * t2 + t1 * t3 + t2 * t3 < -F(1, 10)) if sym else None
    den = p * q - rho * (p + q)
    c.assume(den * den > F(1, 100)) if sym else None
    r = rho * p * q / den
    E = A * t1 * t2 * t3 / (p * q * r)
    AC = ((p + q + r) * E - A * (t1 + t2) - E * t3) / (t3 - t2)
    return dict(A=A, B=E - A + AC, C=AC / A, tau1=t1, tau2=t2, tau3=t3, dt=dt), [p, q, r]


def sort(c, v):
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            if c.fork(v[j + 1] < v[j]):
                v[j], v[j + 1] = v[j + 1], v[j]
    return v


class Fits:
    """stands in for scipy: hands out the prepared fits and records the calls"""

    def __init__(self, c, plan):
        self.c, self.plan, self.calls, self.n = c, plan, [], 0
        c.stub(scipy.optimize.least_squares, self.lsq)
        c.stub(scipy.optimize.fsolve, self.fsolve)

    def lsq(self, fun, x0, *a, bounds=(-numpy.inf, numpy.inf), **k):
        par, poles, jac, cost = self.plan[self.n]
        self.n += 1
        self.calls.append((fun, x0, bounds))
        self.poles = poles
        return scipy.optimize.OptimizeResult(x=self.c.np.array(list(par.values())), jac=jac, cost=cost, success=True,
                                             message='', fun=None)

    def fsolve(self, f, x0, *a, **k):
        c, t = self.c, self.poles
        c.eq('the equations for the fall times hold at the poles', list(f(c.np.array(t))), [0] * len(t))
        for i in range(len(t)):
            u = list(t)
            u[i] = u[i] * 2
            s = sum(v * v for v in f(c.np.array(u)))
            c.lt('and nowhere else', 0, s)
        return c.np.array(t)


def conv(c, poles, p, rsh, rp, r0, got):
    """the small-signal parameters describe the same impedance"""
    names = SS[poles]
    c.same('small-signal parameters', sorted(got), sorted(names))
    c.eq('shunt', got['rsh'], rsh)
    if poles > 1:
        c.eq('resistances are the given ones', [got['rp'], got['r0']], [rp, r0])
    c.eq('time offset', got['dt'], p['dt'])
    q = {k: got[k] for k in names if k != 'dt'}
    for i, f in enumerate((F(0), F(1, 7), F(-3, 5))):
        w = 2j * c.pi * c.num(f)
        if poles == 3:
            w = c.num(f) * 1j
        c.eq('small-signal parameters give the same impedance', model(None, q, poles, w), dvdi(p, w))


def h_fit(c, poles, n, sgn, r, fcut, sym, first=None):
    np = c.np
    fs = c.num(F(n))
    sg = c.num(1)
    if sym:
        tm = c.reals('tm', n, lo=-5, hi=5)
    else:
        tm = c.arr([F(i * i % 5, 4) - 1 for i in range(n)])
        tm[0], tm[1], tm[2] = c.real('tm0', lo=1, hi=5), c.real('tm1', lo=-5, hi=5), c.real('tm2', lo=-5, hi=0)
    dm = c.complexes('dm', n)
    sr, si = c.reals('sr', n, lo=F(1, 10), hi=5), c.reals('si', n, lo=F(1, 10), hi=5)
    rsh, rp, r0, amp = [c.num(v) for v in (F(1, 2), F(1, 4), F(5, 3), F(3, 2))]
    if sym:
        rp, r0 = c.real('rp', lo=F(1, 10), hi=F(1, 2)), c.real('r0', lo=6, hi=9)
    dt0 = c.real('dt0', lo=0, hi=F(1, 100))
    mean = sum(tm) / n
    plan = []
    seq = [poles] if first is None else [first, poles]
    for j, k in enumerate(seq):
        par, pol = fitted(c, k, 'fit%d' % j, sym and j == len(seq) - 1)
        m = len(par)
        if sym:
            jac = np.array([[c.num(F((i * 3 + l * l) % 5 + (4 if i == l else 0))) for l in range(m)] for i in range(m)])
            jac[m - 1, m - 1] = c.real('jac%d' % j, lo=7, hi=9)
        else:
            jac = np.array([[c.num(F((i * 3 + l * l) % 5 + (4 if i == l else 0))) for l in range(m)] for i in range(m)])
        plan.append((par, pol, jac, c.real('cost%d' % j, lo=0)))
    fits = Fits(c, plan)
    o = DD.didvinitfromdata(tm, dm, sr + 1j * si, c.num(0), c.num(0), fs, sg, amp, rsh, r0=r0, rp=rp, dt0=dt0)
    flat = [tm[i] for i in range(1, n) if n // 4 <= i < int(F(12, 25) * n)]
    fm = sum(flat) / len(flat)
    c.assume(fm < mean - F(1, 10) if sgn < 0 else fm > mean + F(1, 10))
    # (there is an overshoot)
    c.assume(tm[0] > fm + F(1, 10))
    for i in range(1, n):
        c.assume(tm[i] < tm[0])
    c.assume(tm[n - 1] < tm[0] - F(1, 10))
    kw = {} if fcut is None else dict(fcutoff=c.num(fcut))
    for k in seq:
        c.same('no result before the fit', o.fitresult(k), {})
        o.dofit(k, **kw)
    par, pol, jac, cost = plan[-1]
    fun, x0, (lo, hi) = fits.calls[-1]
    m = len(par)
    for i in range(m):
        c.le('the fit starts inside its bounds', lo[i], x0[i])
        c.le('the fit starts inside its bounds', x0[i], hi[i])
    if first is None:
        c.eq('the fit starts at the given time offset', x0[m - 1], dt0)
    inf = float('inf')
    want = {'A': (0, inf), 'tau2': (0, inf), 'tau3': (0, inf), 'dt': (-inf, inf)}
    for k in ('B', 'C', 'tau1'):
        want[k] = (0, inf) if sgn < 0 else (-inf, 0)
    for i, k in enumerate(NAMES[poles]):
        c.true('signs of the parameters follow from the loop gain being below or above one',
               bool(lo[i] == want[k][0]) and bool(hi[i] == want[k][1]))
    # the minimised function at an arbitrary point
    q = {k: c.real('q' + k, lo=F(1, 4), hi=3) if k in ('A', 'tau1')[:1] else c.num(F(2 + j, 3)) for j, k in
         enumerate(NAMES[poles])}
    if poles > 1:
        q['B'] = c.num(F(-7, 3))
    if sym:
        q = {k: c.real('q' + k, lo=F(1, 4), hi=3) for k in NAMES[poles]}
        if poles > 1:
            q['B'] = c.real('qB', lo=-3, hi=F(-1, 4))
    q['dt'] = c.num(r) / fs
    z = fun(np.array([q[k] for k in NAMES[poles]]))
    tot = []
    for k in range(n):
        kk = k if k < (n + 1) // 2 else k - n
        f = fs * F(kk, n)
        if fcut is not None and abs(kk) >= fcut:
            continue
        w = 2j * c.pi * f
        ci = 1 / dvdi(q, w) * np.exp(-1j * c.num(2 * kk * r / n) * c.pi)
        d = dm[k] - ci
        tot += [d.real / sr[k], d.imag / si[k]]
    eq_sumsq(c, 'the fit minimises the weighted distance to the admittance below the cutoff', z, tot)
    # results
    res = o.fitresult(poles)
    c.same('parameters', sorted(res['params']), sorted(NAMES[poles]))
    cov = [[res['cov'][i, j] for j in range(m)] for i in range(m)]
    jj = [[sum(jac[a, i] * jac[a, j] for a in range(m)) for j in range(m)] for i in range(m)]
    for i in range(m):
        for j in range(m):
            c.eq('covariance is the inverse of the normal matrix', sum(jj[i][a] * cov[a][j] for a in range(m)),
                 1 if i == j else 0)
    for i, k in enumerate(NAMES[poles]):
        c.eq('fitted parameter', res['params'][k], par[k])
        c.eq('error from the covariance', res['errors'][k] ** 2, cov[i][i])
    c.eq('cost', res['cost'], cost)
    conv(c, poles, par, rsh, rp, r0, res['smallsignalparams'])
    c.eq('zero-frequency admittance', res['didv0'] * dvdi(par, 0), 1)
    c.eq('fall times are the poles from shortest to longest', res['falltimes'], sort(c, pol))
    if first is not None:
        a = o.fitresult(first)
        c.eq('earlier fits are kept', [a['params'][k] for k in NAMES[first]], list(plan[0][0].values()))


def h_misc(c):
    n = 4
    tm = c.reals('tm', n)
    dm, ds = c.complexes('dm', n), c.complexes('ds', n)
    o = DD.didvinitfromdata(tm, dm, ds, 0.0, 0.0, 4.0, 1.0, 1.0, 1.0)
    for k in (0, 4, -1):
        c.raises('only one to three poles', ValueError, lambda: o.dofit(k))
    for k in (1, 2, 3):
        c.same('no result without a fit', o.fitresult(k), {})


def h_auto(c, poles):
    """fitting unprocessed traces processes them first"""
    par, pol = fitted(c, poles, 'p', False)
    m = len(par)
    jac = c.np.array([[c.num(F((i * 3 + l * l) % 5 + (4 if i == l else 0))) for l in range(m)] for i in range(m)])
    mk = lambda: DD.DIDV(x, 6.0, 1.0, 1.5, 0.5, tracegain=2.0, dt0=0.0)
    x = c.arr([[F(1), F(5), F(2), F(-6), F(-3), F(-1)], [F(2), F(7), F(1), F(-8), F(-4), F(-2)]])
    u = c.real('u', lo=F(0), hi=1)
    x[0, 0] = x[0, 0] + u
    a, b = mk(), mk()
    fits = Fits(c, [(par, pol, jac, c.num(1))] * 2)
    a.processtraces()
    a.dofit(poles)
    b.dofit(poles)
    fa, fb = fits.calls[0][0], fits.calls[1][0]
    q = c.np.array([c.num(F(k + 2, 3)) for k in range(m - 1)] + [c.num(F(1, 4))])
    c.eq('same fit function', fa(q), fb(q))
    c.eq('same start', list(fits.calls[0][1]), list(fits.calls[1][1]))
    c.eq('processed mean trace', b._tmean, a._tmean)


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for poles in (1, 2, 3):
        for sgn in (1, -1):
            if poles == 1 and sgn < 0:
                continue
            for n, r, fcut, sym in ((5, F(0), None, True), (8, F(-1, 2), F(3), False), (6, F(1), F(2), False)):
                J.append(('fit/%d/%d/%d/%s/%s/%s' % (poles, sgn, n, r, fcut, sym), h_fit,
                          dict(poles=poles, n=n, sgn=sgn, r=r, fcut=fcut, sym=sym)))
    for a, b in ((2, 3), (1, 2), (3, 2), (3, 1)):
        J.append(('then/%d/%d' % (a, b), h_fit,
                  dict(poles=b, n=6, sgn=1, r=F(1), fcut=None, sym=False, first=a)))
    J.append(('then/2/3/sub', h_fit, dict(poles=3, n=6, sgn=-1, r=F(1), fcut=None, sym=False, first=2)))
    J.append(('misc', h_misc, {}))
    for poles in (1, 2, 3):
        J.append(('auto/%d' % poles, h_auto, dict(poles=poles)))
    return J
