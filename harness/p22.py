"""P22: dIdV fits with prior knowledge of the parameters."""
import warnings
import numpy
import scipy.optimize
from qetpy.core.didv import _didv_priors as DP
from harness.ref import *
from harness.p19 import model
from harness.p21 import fitted, dvdi, sort, Fits, NAMES, SS

warnings.simplefilter('ignore')
numpy.seterr(all='ignore')

BOUNDS = ('1-, 2- and 3-pole fits of 6-8 frequencies; symbolic admittance and errors at two frequencies, priors and '
          'prior covariance (up to three correlated priors) and fitted values; the likelihood at a symbolic point')
ASSUMPTIONS = ['Minuit is a recorder that returns an arbitrary point, scipy least_squares (start values) too',
               'fsolve returns the true poles', 'fall times are real']


class Fake:
    c = None
    calls = []
    out = None

    def __init__(self, fcn, start, kw):
        self.fcn, self.start, self.kw = fcn, start, kw
        self.fval = Fake.out[2]
        Fake.calls.append(self)

    @classmethod
    def from_array_func(cls, fcn, start, **kw):
        return cls(fcn, start, kw)

    def migrad(self, *a, **k):
        self.done = True

    def np_values(self):
        assert self.done
        return Fake.c.np.array(list(Fake.out[0]))

    def np_covariance(self):
        assert self.done
        return Fake.out[1]


def small(poles, p, rsh, rp, r0):
    """small-signal parameters of A, B, ..."""
    if poles == 1:
        return dict(rsh=rsh, rp=p['A'] - rsh, L=p['A'] * p['tau2'], dt=p['dt'])
    rl = rsh + rp
    # B = r0 l (2 + beta) / (1 - l)
    beta = (p['A'] - rl) / r0 - 1
    u = p['B'] / (r0 * (2 + beta))
    l = u / (1 + u)
    r = dict(rsh=rsh, rp=rp, r0=r0, beta=beta, l=l, L=p['A'] * p['tau2'], tau0=p['tau1'] * (1 - l))
    if poles == 3:
        r.update(gratio=p['C'] * (1 - l), tau3=p['tau3'])
    r['dt'] = p['dt']
    return r


def h_fit(c, poles, n, known, corr, fcut, add, sym):
    np = c.np
    Fake.c, Fake.calls = c, []
    DP.Minuit = Fake
    names = SS[poles]
    m = len(names)
    fs, sg, amp = c.num(F(n)), c.num(1), c.num(F(3, 2))
    rsh = c.real('rsh', lo=F(1, 4), hi=F(1, 2)) if sym else c.num(F(1, 2))
    tm = c.arr([F(i * i % 5, 4) - 1 for i in range(n)])
    tm[0] = c.real('tm0', lo=1, hi=5)
    dm = c.carr([F(i + 1, 3) + 0j if False else complex(i % 3, 1 - i) for i in range(n)])
    ds = c.carr([complex(1 + i % 2, 2 + i % 3) for i in range(n)])
    for k in (1, n - 1):
        dm[k] = c.real('dr%d' % k, lo=-5, hi=5) + 1j * c.real('di%d' % k, lo=-5, hi=5)
    ds[1] = c.real('sr', lo=F(1, 10), hi=5) + 1j * c.real('si', lo=F(1, 10), hi=5)
    # start values by the fit without priors
    gpar, gpol = fitted(c, poles, 'g', False)
    gm = len(gpar)
    jac = np.array([[c.num(F((i * 3 + l * l) % 5 + (4 if i == l else 0))) for l in range(gm)] for i in range(gm)])
    # result
    par, pol = fitted(c, poles, 'f', sym)
    frsh, frp, fr0 = c.num(F(2, 5)), c.num(F(1, 5)), c.num(F(5, 3))
    out = small(poles, par, frsh, frp, fr0)
    cov = np.array([[c.num(F(1 if i == j else 0)) * (i + 2) for j in range(m)] for i in range(m)])
    cov[0, 0] = c.real('cv', lo=F(1, 4), hi=4)
    Fake.out = ([out[k] for k in names], cov, c.real('fval'))
    # priors
    pri, pcov = np.zeros(m), np.zeros((m, m))
    for j, k in enumerate(known):
        i = names.index(k)
        pri[i] = c.real('pr' + k, lo=F(1, 10), hi=3) if k != 'dt' else c.real('prdt', lo=-3, hi=F(-1, 10))
        pcov[i, i] = c.num(F(j + 1, 4)) if corr else c.real('pv' + k, lo=F(1, 10), hi=2)
    for a, b in corr:
        i, j = names.index(a), names.index(b)
        pcov[i, j] = pcov[j, i] = c.num(F(1, 8))
    pri0, pcov0 = pri.copy(), pcov.copy()
    o = DP.DIDVPriors(None, fs, sg, amp, rsh, dt0=c.num(F(1, 100)), add180phase=add)
    # (as processed)
    o._tmean, o._didvmean, o._didvstd, o._offset, o._offset_err = tm, dm, ds, c.num(0), c.num(0)
    o._freq = np.array([fs * F(k if k < (n + 1) // 2 else k - n, n) for k in range(n)])
    o._dt0 = c.num(F(1, 100) + (F(1, 2) if add else 0))
    fits = Fits(c, [(gpar, gpol, jac, c.num(1))])
    old = fits.lsq

    def lsq(fun, x0, *a, **k):
        r = old(fun, x0, *a, **k)
        return r
    c.same('no result before the fit', o.fitresult(poles), {})
    ft = fits.fsolve

    def fsolve(f, x0, *a, **k):
        # (the start values are fitted first)
        fits.poles = gpol if not Fake.calls else pol
        return ft(f, x0, *a, **k)
    c.stub(scipy.optimize.fsolve, fsolve)
    kw = {} if fcut is None else dict(fcutoff=c.num(fcut))
    o.dofit(poles, pri, pcov, **kw)
    c.eq('priors unmodified', [pri, ], [pri0, ])
    c.eq('prior covariance unmodified', pcov, pcov0)
    c.same('one fit', len(Fake.calls), 1)
    f = Fake.calls[0]
    c.eq('the first guess starts at the time offset', fits.calls[0][1][gm - 1], F(1, 100) + (F(1, 2) if add else 0))
    # start values
    rp, r0 = pri[1], pri[2]
    g = small(poles, gpar, rsh, pri[1] if 'rp' in known else F(1, 100),
              (pri[2] if 'r0' in known else F(1, 10)) if poles > 1 else 1)
    for i, k in enumerate(names):
        lim = f.kw['limit'][i]
        if k == 'dt':
            c.eq('start value of the time offset', f.start[i], pri[i] if k in known else gpar['dt'])
            c.true('the time offset is free', lim is None or (lim[0] is None and lim[1] is None))
            continue
        if k in known:
            c.eq('known parameters start at their prior', f.start[i], pri[i])
        else:
            c.eq('unknown parameters start at the size of the fit without priors', f.start[i] ** 2, g[k] ** 2)
            c.le('start values are not negative', 0, f.start[i])
        c.true('physical parameters are not negative', lim[0] == 0 and (lim[1] is None or lim[1] == float('inf')))
    # likelihood at an arbitrary point
    q = {k: c.num(F(i + 1, 4)) for i, k in enumerate(names)}
    q['L'] = c.real('qL', lo=F(1, 4), hi=3)
    if poles > 1:
        q['l'] = c.num(F(5, 2))
    for k in known[:2 if fcut is not None else 1]:
        q[k] = c.real('q' + k, lo=F(1, 4), hi=3)
    r = F(1)
    q['dt'] = c.num(r) / fs
    got = f.fcn(np.array([q[k] for k in names])) / f.kw['errordef']
    tot = 0
    for k in range(n):
        kk = k if k < (n + 1) // 2 else k - n
        if fcut is not None and abs(kk) >= fcut:
            continue
        w = 2j * c.pi * (fs * F(kk, n))
        ci = q['rsh'] / model(None, q, poles, w) * np.exp(-1j * c.num(2 * kk * r / n) * c.pi)
        d = dm[k] * rsh - ci
        tot = tot + (d.real / (ds[k].real * rsh)) ** 2 + (d.imag / (ds[k].imag * rsh)) ** 2
    idx = [names.index(k) for k in known]
    if corr:
        inv = np.linalg.inv(np.array([[pcov[i, j] for j in idx] for i in idx]))
        d = [pri[i] - q[names[i]] for i in idx]
        tot = tot + sum(d[a] * inv[a, b] * d[b] for a in range(len(idx)) for b in range(len(idx)))
    else:
        tot = tot + sum((pri[i] - q[names[i]]) ** 2 / pcov[i, i] for i in idx)
    c.eq('the likelihood is the weighted distance plus the distance from the priors', got, tot)
    # results
    res = o.fitresult(poles)
    c.same('parameters', sorted(res['params']), sorted(names))
    for i, k in enumerate(names):
        c.eq('fitted parameter', res['params'][k], out[k])
        c.eq('error from the covariance', res['errors'][k] ** 2, cov[i, i])
    c.eq('covariance', res['cov'], cov)
    c.eq('cost', res['cost'], Fake.out[2])
    c.eq('zero-frequency admittance', res['didv0'] * dvdi(par, 0), 1)
    c.eq('fall times are the poles from shortest to longest', res['falltimes'], sort(c, pol))
    c.eq('priors are stored', [res['priors'], ], [pri0, ])
    c.eq('prior covariance is stored', res['priorscov'], pcov0)
    for k in (1, 2, 3):
        if k != poles:
            c.same('no other result', o.fitresult(k), {})


def h_misc(c):
    n = 6
    Fake.c, Fake.calls = c, []
    DP.Minuit = Fake
    o = DP.DIDVPriors(None, 6.0, 1.0, 1.0, 1.0)
    o._tmean = c.arr([F(2), F(1), F(0), F(-1), F(-1), F(0)])
    o._didvmean = o._didvstd = c.carr([1 + 1j] * n)
    o._freq = c.arr([F(0), F(1), F(2), F(-3), F(-2), F(-1)])
    for k in (0, 4):
        c.raises('only one to three poles', ValueError, lambda: o.dofit(k, c.np.zeros(8), c.np.zeros((8, 8))))


def jobs(tier):
    J = []
    A = [(1, 5, ('rsh', 'rp'), (), None, False, True), (1, 6, ('rsh',), (), F(2), True, False),
         (2, 6, ('rsh', 'rp', 'r0'), (), F(2), False, False), (2, 5, ('r0',), (), None, False, False),
         (2, 6, ('rsh', 'rp', 'r0'), (('rsh', 'rp'), ('rp', 'r0')), F(3), True, False),
         (2, 6, ('rp', 'L'), (('rp', 'L'),), F(2), False, True), (2, 8, ('rsh', 'r0'), (), F(2), False, False),
         (3, 6, ('rsh', 'rp', 'r0'), (), F(2), False, False),
         (3, 6, ('rsh', 'r0', 'tau3'), (('rsh', 'tau3'),), F(2), True, False)]
    A += [(1, 6, ('rsh', 'dt'), (), F(2), False, False), (2, 6, ('r0', 'dt'), (('r0', 'dt'),), F(2), True, False)]
    if tier == 'thorough':
        A += [(3, 6, ('rsh', 'rp', 'r0', 'L'), (), None, False, True), (2, 8, ('rsh', 'rp', 'r0', 'dt'), (), None, False, True),
              (1, 8, ('rsh', 'rp', 'L'), (('rp', 'L'),), None, False, True)]
    for poles, n, known, corr, fcut, add, sym in A:
        J.append(('fit/%d/%d/%s/%s/%s/%s/%s' % (poles, n, '+'.join(known), len(corr), fcut, add, sym), h_fit,
                  dict(poles=poles, n=n, known=list(known), corr=corr, fcut=fcut, add=add, sym=sym)))
    J.append(('misc', h_misc, {}))
    return J
