"""P09: non-linear pulse fits and the muon-tail fit."""
import inspect
from scipy.optimize import least_squares
from qetpy.core._fitting import OFnonlin, MuonTailFit
from harness.ref import *

BOUNDS = ('trace lengths 2-4 (6 for the shapes), every sample, PSD value, amplitude, rise/fall time, start '
          'time and sample rate symbolic; pulse-height scaling for rise/fall ratios 1/2, 2/3, 3/4, 2, 3/2; '
          'time-domain shifts of -2..n samples plus a small rounding error; solver result and Jacobian '
          'symbolic (2-6 non-zero Jacobian entries)')
ASSUMPTIONS = ['scipy.optimize.least_squares is replaced by a stand-in returning an arbitrary point and '
               'Jacobian: the claims are about the objective, start and bounds it is given and what is '
               'made of its answer']
SIG = inspect.signature(least_squares)
NP = {1: 3, 2: 4, 3: 6, 4: 8}


class Ref:
    def __init__(self, c, n, fs):
        self.c, self.n, self.fs = c, n, fs
        self.f = [fs * k / n if k < (n + 1) // 2 else fs * (k - n) / n for k in range(n)]

    def terms(self, npole, x, height=None, taurise=None):
        """[(amplitude, time constant)], start time"""
        if npole == 4:
            A, B, C, r, f1, f2, f3, t0 = x
            return [(A, f1), (B, f2), (C, f3), (-(A + B + C), r)], t0
        if npole == 3:
            A, B, r, f1, f2, t0 = x
            return [(A, f1), (B, f2), (-(A + B), r)], t0
        if npole == 2:
            A, r, f, t0 = x
        else:
            A, f, t0 = x
            r = taurise
        if height is not None:
            A = A / height
        return [(A, f), (-A, r)], t0

    def freq(self, terms, t0):
        """Fourier transform of sum a exp(-t/tau), t>t0, in the sqrt(df) convention"""
        np = self.c.np
        out = []
        for f in self.f:
            w = 2 * self.c.pi * f
            v = 0
            for a, tau in terms:
                v = v + a * tau / (1 + 1j * w * tau)
            out.append(v * np.exp(-1j * w * t0) * np.sqrt(self.fs / self.n))
        return out

    def time(self, terms, k):
        np = self.c.np
        out = []
        for j in range(self.n):
            v = 0
            if 0 <= j - k < self.n:
                for a, tau in terms:
                    v = v + a * np.exp(-((j - k) / self.fs) / tau)
            out.append(v)
        return out

    def dft(self, x):
        np = self.c.np
        return [sum(x[j] * np.exp(self.c.num(F(-2 * ((j * k) % self.n), self.n)) * 1j * self.c.pi)
                    for j in range(self.n)) / np.sqrt(self.fs * self.n) for k in range(self.n)]


# tau_r/tau_f -> height of exp(-t/tau_f)-exp(-t/tau_r) at its extremum
RATIOS = [(F(1, 2), F(1, 4)), (F(2, 3), F(4, 27)), (F(3, 4), F(27, 64) - F(81, 256)), (F(2), -F(1, 4)),
          (F(3, 2), -F(4, 27))]


def params(c, npole, t0):
    """free parameters with positive time constants"""
    if npole == 4:
        return [c.real('A'), c.real('B'), c.real('C')] + [
            c.real(k, pos=True) for k in ('tr', 'tf1', 'tf2', 'tf3')] + [t0]
    if npole == 3:
        return [c.real('A'), c.real('B')] + [c.real(k, pos=True) for k in ('tr', 'tf1', 'tf2')] + [t0]
    if npole == 2:
        return [c.real('A'), c.real('tr', pos=True), c.real('tf', pos=True), t0]
    return [c.real('A'), c.real('tf', pos=True), t0]


def scaled(c, npole, t0):
    """a pulse with its height as amplitude, for a selectable rise/fall ratio"""
    q, h = c.pick('ratio', RATIOS)
    tf = c.real('tf', pos=True)
    A = c.real('A')
    if npole == 1:
        return [A, tf, t0], h, q * tf
    return [A, q * tf, tf, t0], h, None


FN = {4: 'fourpole', 3: 'threepole', 2: 'twopole', 1: 'onepole'}


def h_shape(c, n, npole, scale, time):
    fs = c.real('fs', lo=F(1, 4), hi=4)
    nl = OFnonlin(c.arr([1] * n), fs)
    R = Ref(c, n, fs)
    h = taurise = None
    k = 0
    if time:
        k = c.pick('shift', list(range(-2, n + 1)))
        t0 = (k + c.real('e', lo=-F(1, 1000), hi=F(1, 1000))) / fs
    else:
        t0 = c.real('t0')
    if scale:
        x, h, taurise = scaled(c, npole, t0)
    else:
        x = params(c, npole, t0)
        taurise = c.real('taurise', pos=True)
    nl.scale_amplitude = scale
    nl.taurise = taurise
    terms, _ = R.terms(npole, x, h, taurise)
    got = getattr(nl, FN[npole] + ('time' if time else ''))(*x)
    if time:
        c.eq('time-domain shape', got, R.time(terms, k))
    else:
        c.eq('frequency-domain shape', got, R.freq(terms, t0), scale=10 + sum(abs(a * t) for a, t in terms))


def h_resid(c, n, npole, scale):
    fs = c.num(2)
    psd = c.reals('psd', n, pos=True)
    psd0 = psd.copy()
    nl = OFnonlin(psd, fs)
    R = Ref(c, n, fs)
    pulse = c.reals('v', n)
    es = c.real('errscale', pos=True)
    got = {}

    def stub(*a, **k):
        b = SIG.bind(*a, **k).arguments
        got.update(b)
        return dict(x=c.np.array(b['x0']), success=True, jac=c.arr([[1 if i == j else 0 for j in range(len(b['x0']))]
                                                                    for i in range(20)]))
    c.stub(least_squares, stub)
    h = taurise = None
    t0 = c.real('t0')
    if scale:
        x, h, taurise = scaled(c, npole, t0)
    else:
        x = params(c, npole, t0)
        taurise = c.real('taurise', pos=True)
    pos = [F(3, 2), F(5, 4), F(1, 2), F(1, 4), 2, 3, 4, 1][:NP[npole]]
    out = nl.fit_falltimes(pulse, npolefit=npole, errscale=es, guess=[c.num(p) for p in pos],
                           taurise=taurise if npole == 1 else None, scale_amplitude=scale)
    c.eq('start point is the guess', got['x0'], pos)
    terms, _ = R.terms(npole, x, h, taurise)
    model = R.freq(terms, t0)
    data = R.dft(pulse)
    r = got['fun'](x)
    c.true('two residuals per frequency', len(r) == 2 * n)
    sc = 10 + sum(abs(a * t) for a, t in terms)
    tot = 0
    for k in range(n):
        d = data[k] - model[k]
        w = es / psd0[k]
        if k == 0:
            c.le('zero frequency does not contribute', (r[0] ** 2 + r[1] ** 2) * 10 ** 30,
                 (d.conjugate() * d).real * es)
            tot = tot + r[0] ** 2 + r[1] ** 2
        else:
            m = (d.conjugate() * d).real * w
            root = c.np.sqrt(psd0[k] / es)
            c.eq('residuals are the noise-weighted difference', [r[2 * k] * root, r[2 * k + 1] * root],
                 [d.real, d.imag], scale=sc + abs(data[k]))
            tot = tot + m
    if n != NP[npole]:
        red = nl.calcchi2(c.np.array(model))
        c.eq('chi2 is the residual power per degree of freedom', red * (n - NP[npole]), tot, scale=sc * sc + tot)
    c.eq('the PSD is left unmodified', psd, psd0)


def h_fit(c, n, npole, lgc):
    """what is done with the solver's answer, and default bounds"""
    fs = c.real('fs', lo=F(1, 4), hi=4) if npole < 3 else c.num(2)
    psd = c.reals('psd', n, pos=True) if npole < 3 else c.arr([2, F(1, 2), 3, F(1, 5), 1, 2][:n])
    nl = OFnonlin(psd, fs)
    m = NP[npole]
    pulse = c.reals('v', n)
    na = {4: 3, 3: 2}.get(npole, 1)
    g = [c.real('g%d' % i, pos=True) for i in range(m - 1)] + [c.real('g_t0')]
    # with three or more poles the fitted times are fixed rationals
    sol = [c.num(F(i, 3)) if npole > 2 and na <= i < m - 1 else c.real('x%d' % i) for i in range(m)]
    if npole < 3:
        for i in range(na, m - 1):
            c.assume(sol[i] > 0)
    J = [[0] * m for _ in range(2 * n)]
    for i in range(m):
        J[i % (2 * n)][i] = c.real('j%d' % i, lo=F(1, 4), hi=4) if npole < 3 or i < 2 else c.num(F(i, 3))
    J[m % (2 * n)][0] = c.real('k', lo=-4, hi=4)
    got = {}

    def stub(*a, **k):
        got.update(SIG.bind(*a, **k).arguments)
        return dict(x=c.np.array(sol), success=c.pick('success', [True, False]), jac=c.np.array(J))
    c.stub(least_squares, stub)
    kw = dict(npolefit=npole, guess=tuple(g), scale_amplitude=False, taurise=F(1, 2) if npole == 1 else None)
    user = c.pick('bounds', [False, True])
    if user:
        kw['bounds'] = ([0] * m, [7] * m)
    if kw['taurise'] is not None:
        kw['taurise'] = c.num(kw['taurise'])
    es = c.real('errscale', pos=True)
    r = nl.fit_falltimes(pulse, errscale=es, lgcfullrtn=lgc, **kw)
    c.eq('the guess is the start point', got['x0'], g)
    lo, hi = got['bounds']
    if user:
        c.eq('given bounds are used', [lo, hi], [[0] * m, [7] * m])
    else:
        for i in range(m):
            if i < na:
                c.eq('amplitude within a factor of 100', [lo[i], hi[i]], [g[i] / 100, g[i] * 100])
            elif i < m - 1:
                c.eq('times within a factor of 10', [lo[i], hi[i]], [g[i] / 10, g[i] * 10])
            else:
                c.eq('start within 30 samples', [lo[i], hi[i]], [g[i] - 30 / fs, g[i] + 30 / fs])
    if not lgc:
        c.eq('best fit is the solver result', r, sol)
        return
    x, err, cov, chi2, suc = r
    c.eq('best fit is the solver result', x, sol)
    c.eq('success flag is the solver flag', 1 if suc else 0, 1 if c.pick('success', [True, False]) else 0)
    JJ = [[sum(J[k][i] * J[k][j] for k in range(2 * n)) for j in range(m)] for i in range(m)]
    prod = [[sum(cov[i][k] * JJ[k][j] for k in range(m)) for j in range(m)] for i in range(m)]
    c.eq('covariance inverts J^T J', prod, [[1 if i == j else 0 for j in range(m)] for i in range(m)])
    c.eq('errors are the root of the covariance diagonal', [e * e for e in err], [cov[i][i] for i in range(m)])
    for e in err:
        c.le('errors are not negative', 0, e)
    R = Ref(c, n, fs)
    terms, t0 = R.terms(npole, sol, None, kw['taurise'])
    model, data = R.freq(terms, t0), R.dft(pulse)
    tot = sum(((data[k] - model[k]).conjugate() * (data[k] - model[k])).real * es / psd[k] for k in range(1, n))
    sc = 10 + tot
    d0 = data[0] - model[0]
    gap = chi2 * (n - m) - tot
    # what remains is the suppressed zero-frequency bin
    c.le('chi2 per degree of freedom belongs to the best fit', gap, (d0.conjugate() * d0).real * es / 10 ** 30)
    c.le('chi2 per degree of freedom belongs to the best fit', 0, gap)


def h_guess(c, n, npole, tmpl):
    """automatic guesses: pulse maximum gives the start time"""
    fs = c.num(F(10000))
    pulse = c.reals('v', n)
    top = c.pick('peak', list(range(n - 1)))
    ref = pulse
    t = None
    if tmpl:
        t = c.arr([F(1, 2 + abs(j - top)) if j != top else F(1) for j in range(n)])
        ref = t
    else:
        for j in range(n):
            c.assume(ref[j] > 0)
            if j != top:
                c.assume(ref[j] < ref[top])
    if tmpl:
        c.assume(pulse[1] > pulse[0])
        for j in range(2, n):
            c.assume(pulse[j] < pulse[1])
            c.assume(pulse[j] > pulse[0])
    got = {}

    def stub(*a, **k):
        got.update(SIG.bind(*a, **k).arguments)
        return dict(x=c.np.array(got['x0']), success=True,
                    jac=c.arr([[1 if i == j else 0 for j in range(NP[npole])] for i in range(20)]))
    c.stub(least_squares, stub)
    nl = OFnonlin(c.arr([1] * n), fs, template=t)
    nl.fit_falltimes(pulse, npolefit=npole, taurise=c.num(F(1, 1000)), scale_amplitude=False)
    x0 = got['x0']
    c.eq('automatic start time is the time of the maximum', x0[-1], top / fs)
    c.lt('automatic amplitude is positive', 0, x0[0])
    mx = ref[top] * ((pulse[1] - pulse[0]) if tmpl else 1)
    c.le('automatic amplitude is at most the maximum', x0[0], mx)
    lo, hi = got['bounds']
    for i in range(NP[npole]):
        c.le('automatic start point is inside the bounds', lo[i], x0[i])
        c.le('automatic start point is inside the bounds', x0[i], hi[i])


def h_bad(c, npole):
    nl = OFnonlin(c.arr([1, 1, 1]), c.real('fs', pos=True))
    v = c.reals('v', 3)
    c.stub(least_squares, lambda *a, **k: dict(x=c.np.array(k['x0']), success=True, jac=c.arr(
        [[1 if i == j else 0 for j in range(len(k['x0']))] for i in range(len(k['x0']))])))
    for m in range(2, 10):
        if m != NP[npole]:
            c.raises('wrong guess length is refused', ValueError, lambda: nl.fit_falltimes(
                v, npolefit=npole, guess=[c.num(1)] * m, taurise=c.num(1)))
    c.raises('one-pole fit without rise time is refused', ValueError,
             lambda: nl.fit_falltimes(v, npolefit=1, guess=[c.num(1)] * 3))


def h_muon(c, n, lgc):
    fs = c.real('fs', lo=F(1, 4), hi=4)
    psd = c.reals('psd', n, pos=True)
    psd0 = psd.copy()
    v = c.reals('v', n)
    es = c.real('errscale', pos=True)
    A, tau = c.real('A'), c.real('tau', pos=True)
    J = [[0, 0] for _ in range(2 * n)]
    J[0][0], J[1][0], J[1][1] = (c.real('j%d' % i, lo=F(1, 4), hi=4) for i in range(3))
    got = {}

    def stub(*a, **k):
        got.update(SIG.bind(*a, **k).arguments)
        return dict(x=c.np.array([A, tau]), success=True, jac=c.np.array(J))
    c.stub(least_squares, stub)
    mt = MuonTailFit(psd, fs)
    r = mt.fitmuontail(v, lgcfullrtn=lgc, errscale=es)
    R = Ref(c, n, fs)
    data = R.dft(v)
    a, t = c.real('a'), c.real('t', pos=True)
    z = got['fun']([a, t])
    model = R.freq([(a, t)], 0)
    for k in range(n):
        d = data[k] - model[k]
        w = es / psd0[k]
        sc = 10 + (1 + w) * (1 + abs(d) ** 2)
        c.eq('muon tail: residuals are the noise-weighted difference',
             [z[2 * k] ** 2, z[2 * k + 1] ** 2], [d.real ** 2 * w, d.imag ** 2 * w], scale=sc)
    c.eq('muon tail: best fit is the solver result', r[0] if lgc else r, [A, tau])
    c.eq('the PSD is left unmodified', psd, psd0)
    if lgc:
        x, err, cov, chi2 = r
        model = R.freq([(A, tau)], 0)
        tot = sum(((data[k] - model[k]).conjugate() * (data[k] - model[k])).real * es / psd0[k] for k in range(n))
        c.eq('muon tail: chi2 belongs to the best fit', chi2, tot, scale=10 + tot)
        JJ = [[sum(J[k][i] * J[k][j] for k in range(2 * n)) for j in range(2)] for i in range(2)]
        c.eq('muon tail: covariance inverts J^T J',
             [[sum(cov[i][k] * JJ[k][j] for k in range(2)) for j in range(2)] for i in range(2)], [[1, 0], [0, 1]])
        c.eq('muon tail: errors', [e * e for e in err], [cov[0][0], cov[1][1]])


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for n in (2, 3, 4) + ((5, 6) if big else ()):
        for np_ in (1, 2, 3, 4):
            J.append(('shape/%d/%d' % (n, np_), h_shape, dict(n=n, npole=np_, scale=False, time=False)))
            if np_ < 3:
                J.append(('shape/%d/%d/height' % (n, np_), h_shape, dict(n=n, npole=np_, scale=True, time=False)))
            if np_ > 1:
                J.append(('time/%d/%d' % (n, np_), h_shape, dict(n=n, npole=np_, scale=False, time=True)))
            if np_ == 2:
                J.append(('time/%d/%d/height' % (n, np_), h_shape, dict(n=n, npole=np_, scale=True, time=True)))
    for np_ in (1, 2, 3, 4):
        for n in {1: (2, 4), 2: (2, 3), 3: (3, 4), 4: (4, 5)}[np_][:2 if big or np_ < 3 else 1]:
            if np_ > 2 and not big:
                n = 2
            J.append(('resid/%d/%d' % (n, np_), h_resid, dict(n=n, npole=np_, scale=False)))
            if np_ < 3:
                J.append(('resid/%d/%d/height' % (n, np_), h_resid, dict(n=n, npole=np_, scale=True)))
            if np_ > 2 and not big:
                n = np_
            for lgc in (False, True):
                J.append(('fit/%d/%d/%s' % (n, np_, lgc), h_fit, dict(n=n, npole=np_, lgc=lgc)))
        for tmpl in (False, True):
            J.append(('guess/%d/%s' % (np_, tmpl), h_guess, dict(n=5 if np_ == 2 else 4, npole=np_, tmpl=tmpl)))
        J.append(('bad/%d' % np_, h_bad, dict(npole=np_)))
    for n in (2, 3, 4):
        for lgc in (False, True):
            J.append(('muon/%d/%s' % (n, lgc), h_muon, dict(n=n, lgc=lgc)))
    return J


INTS = [(r'(resid|muon)/.*', 'v')]
