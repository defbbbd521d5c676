"""P20: processing of dIdV traces."""
import warnings
import numpy
import scipy.fftpack
from qetpy.core.didv import _base_didv as D
from qetpy.core.didv import _didv as DD
from qetpy.core.didv import _didv_priors as DP
from harness.ref import *
from harness.p19 import model, params, ALL, N1

warnings.simplefilter('ignore')

BOUNDS = ('1-3 traces of 4-17 samples, 1-4 periods of 2-12 samples, duty cycles 1/2, 1/3, 1/4, 3/4; symbolic samples, '
          'gain, amplitude, shunt and frequency; the time offset from a rational grid')
ASSUMPTIONS = ['every trace has a cosine component of at least 1/10 at the harmonics of the square wave',
               'the resampling function of scipy is a recorder']
CLS = {'base': lambda *a, **k: D._BaseDIDV(*a, **k), 'didv': lambda *a, **k: DD.DIDV(*a, **k),
       'priors': lambda *a, **k: DP.DIDVPriors(*a, **k)}


def dft(c, x, k):
    n = len(x)
    return sum(x[j] * c.np.exp(c.num(F(-2 * ((j * k) % n), n)) * 1j * c.pi) for j in range(n))


def coef(c, h, d):
    """Fourier coefficient of the unit square wave: low for the first part d
    of the period, high after it"""
    return -1j * (c.np.exp(-1j * c.num(2 * h * d) * c.pi) - 1) / (2 * h * c.pi)


def driven(n, m, d):
    """(index, harmonic) of the bins with signal, without the Nyquist bin"""
    r = []
    for k in range(-(n // 2), (n + 1) // 2):
        if k and k % m == 0 and not (d == F(1, 2) and (k // m) % 2 == 0) and k % n != n // 2:
            if (k // m * d).denominator != 1:
                r.append((k % n, k // m))
    return r


def build(c, nt, raw, per, d, cls, conc, **kw):
    """raw samples per trace, per samples per period"""
    np = c.np
    m = raw // per
    n = m * per
    rows = []
    for t in range(nt):
        # any trace is the sum of its Fourier components
        r = [c.real('dc%d' % t, lo=-5, hi=5)] * n
        if n % 2 == 0:
            ny = c.real('ny%d' % t, lo=-5, hi=5)
            r = [v + (-1) ** i * ny for i, v in enumerate(r)]
        for k in range(1, (n + 1) // 2):
            u, v = c.real('a%d_%d' % (t, k), lo=F(1, 10) if k % m == 0 else -5, hi=5), c.real('b%d_%d' % (t, k), lo=-5, hi=5)
            r = [w + u * np.cos(c.num(F(2 * ((k * i) % n), n)) * c.pi) + v * np.sin(c.num(F(2 * ((k * i) % n), n)) * c.pi)
                 for i, w in enumerate(r)]
        rows.append(r + [c.real('z%d_%d' % (t, i), lo=-5, hi=5) for i in range(n, raw)])
    x = np.array(rows)
    if conc:
        sg, amp, rsh, gain = [c.num(v) for v in (F(5, 4), F(3, 2), F(1, 2), F(4, 3))]
    else:
        sg, amp, rsh, gain = [c.real(v, lo=F(1, 4), hi=4) for v in ('sg', 'amp', 'rsh', 'gain')]
    if d is not None:
        kw['dutycycle'] = c.num(d)
    return x, sg, amp, rsh, gain, kw


def h_proc(c, nt, raw, per, d, cls, conc, dt, add, again, nan, r0=None):
    np = c.np
    x, sg, amp, rsh, gain, kw = build(c, nt, raw, per, d, cls, conc)
    dd = F(1, 2) if d is None else d
    fs = per * sg
    m = raw // per
    n = m * per
    drv = driven(n, m, dd)
    mean = [sum(x[t, i] for t in range(nt)) / nt for i in range(n)]
    spec = [[dft(c, [x[t, i] for i in range(n)], k) for k, h in drv] for t in range(nt)]
    if nan is not None:
        rows = [[x[t, i] for i in range(raw)] for t in range(nt)]
        bad = [x[0, i] for i in range(raw)]
        bad[nan[1]] = float('nan')
        rows.insert(nan[0], bad)
        full = np.array(rows)
    else:
        full = x
    keep = full.copy()
    o = CLS[cls](full, fs, sg, amp, rsh, tracegain=gain, dt0=c.num(dt) / fs, add180phase=add, **kw)
    o.processtraces()
    if again:
        o.processtraces()
    for t in range(full.shape[0]):
        for i in range(raw):
            if nan is None or t != nan[0]:
                c.eq('raw traces unmodified', full[t, i], keep[t, i])
    c.same('traces kept', tuple(o._traces.shape), (nt, n))
    c.eq('traces in Amps', o._traces, [[x[t, i] / gain for i in range(n)] for t in range(nt)])
    c.eq('mean trace', o._tmean, [v / gain for v in mean])
    shift = dt + (F(per, 2) if add else 0)
    c.eq('time axis starts at minus the time offset', o._time, [(i - c.num(shift)) / fs for i in range(n)])
    c.eq('frequencies', o._freq, [fs * F(k if k < (n + 1) // 2 else k - n, n) for k in range(n)])
    c.same('number of traces', o._ntraces, nt)
    mu = [sum(x[t, i] for i in range(n)) / n / gain for t in range(nt)]
    mm = sum(mu) / nt
    c.eq('offset is the mean', o._offset, mm)
    c.eq('error of the offset', o._offset_err ** 2 * nt * nt, sum((u - mm) ** 2 for u in mu))
    for j, (k, h) in enumerate(drv):
        f = coef(c, h, dd) * amp * rsh * n * gain
        y = [spec[t][j] for t in range(nt)]
        yb = sum(y) / nt
        c.eq('mean admittance at the driven frequencies', o._didvmean[k] * f, yb)
        c.true('driven frequencies are used', not bool(o._zeroinds[k]))
        q = [v / f for v in y]
        qb = sum(q) / nt
        for nm, part in (('real', lambda z: z.real), ('imag', lambda z: z.imag)):
            c.eq('standard error of the %s part' % nm, part(o._didvstd[k]) ** 2 * nt * nt,
                 sum((part(v) - part(qb)) ** 2 for v in q))
    dk = [k for k, h in drv]
    for k in range(n):
        if k not in dk:
            c.true('other frequencies are excluded', bool(o._zeroinds[k]))
            c.le('virtually infinite error elsewhere', 10 ** 19, o._didvstd[k].real)
            c.le('virtually infinite error elsewhere', 10 ** 19, o._didvstd[k].imag)
    s = int(shift)
    want = [i for p in range(m) for i in range(int((p + F(1, 4)) * per) + s, int((p + F(12, 25)) * per) + s)
            if 0 < i < n]
    c.same('top-slope samples are 25 to 48 per cent of every period', [int(i) for i in o._flatinds], want)


def h_round(c, n, m, d, poles, sym):
    """processing a simulated response gives back the admittance"""
    np = c.np
    p = params(c, poles, sym)
    sg, amp = c.num(F(5, 4)), c.real('amp', lo=F(1, 4), hi=4)
    per = n // m
    fs = per * sg
    kw = {} if d is None else dict(dutycycle=c.num(d))
    dd = F(1, 2) if d is None else d
    t = np.arange(n) / fs
    r = D.squarewaveresponse(t, amp, sg, **kw, **p)
    off, gain = c.real('off'), c.real('gain', lo=F(1, 10), hi=9)
    r = (r + off) * gain
    full = np.array([list(r), list(r)])
    o = DD.DIDV(full, fs, sg, amp, p['rsh'], tracegain=gain, dt0=0.0, **kw)
    o.processtraces()
    for k, h in driven(n, m, dd):
        z = model(None, p, poles, 2j * c.pi * h * sg)
        c.eq('processing a simulated response gives its admittance', o._didvmean[k] * z, 1 + 0j)
    c.eq('and the offset', o._offset, off)


def h_periods(c, fss, g, ms):
    """whole number of periods for sample rates where 1/fs is rounded"""
    c.stub(scipy.fftpack.fft, lambda x, *a, **k: numpy.ones(len(x)) + 0j)
    v = c.real('v', lo=1, hi=2)
    for fs in fss:
        for m in ms:
            n = m * (fs // g)
            row = [c.num(1)] * n
            row[-1] = v
            for t in (float, int):
                o = D._BaseDIDV(c.np.array([row]), t(fs), t(g), 1.0, 1.0, dt0=0.0)
                o.processtraces()
                c.same('no period is lost', tuple(o._tmean.shape), (n,))
                c.eq('the last sample is used', o._tmean[-1], v)


def h_init(c, per, m, dt, add):
    """an object from processed data equals the processed object"""
    n = per * m
    x, sg, amp, rsh, gain, kw = build(c, 2, n, per, None, 'didv', False)
    fs = per * sg
    r0, rp = c.real('r0', pos=True), c.real('rp', pos=True)
    tm = c.reals('tm', n)
    dm, ds = c.complexes('dm', n), c.complexes('ds', n)
    off, offe = c.real('off'), c.real('offe')
    a = DD.didvinitfromdata(tm, dm, ds, off, offe, fs, sg, amp, rsh, r0=r0, rp=rp, add180phase=add,
                            dt0=c.num(dt) / fs)
    for nm, got, want in (('mean trace', a._tmean, tm), ('admittance', a._didvmean, dm), ('errors', a._didvstd, ds),
                          ('offset', a._offset, off), ('offset error', a._offset_err, offe), ('shunt', a._rsh, rsh),
                          ('resistance', a._r0, r0), ('parasitic resistance', a._rp, rp), ('amplitude', a._sgamp, amp)):
        c.eq('given ' + nm, got, want)
    shift = dt + (F(per, 2) if add else 0)
    c.eq('time axis', a._time, [(i - c.num(shift)) / fs for i in range(n)])
    c.eq('frequencies', a._freq, [fs * F(k if k < (n + 1) // 2 else k - n, n) for k in range(n)])
    c.eq('time offset', a._dt0 * fs, shift)
    s = int(shift)
    want = [i for p in range(m) for i in range(int((p + F(1, 4)) * per) + s, int((p + F(12, 25)) * per) + s)
            if 0 < i < n]
    c.same('top-slope samples', [int(i) for i in a._flatinds], want)


def h_rate(c, cls):
    """sample rates that are no multiple of the signal frequency"""
    x = c.reals('x', (1, 8))
    y = c.reals('y', (1, 9))
    nfs = c.real('nfs', pos=True)
    seen = []

    def res(a, fs, sg, **k):
        seen.append((a, fs, sg, k))
        return y, nfs
    c.stub(D.resample_data, res)
    mk = CLS[cls]
    c.raises('refused without resampling', ValueError, lambda: mk(x, 7.0, 2.0, 1.0, 1.0))
    o = mk(x, 7.0, 2.0, 1.0, 1.0, autoresample=True)
    c.same('resampled once', len(seen), 1)
    c.eq('the raw data are resampled', seen[0][0], x)
    c.eq('from the sample rate', [seen[0][1], seen[0][2]], [7, 2])
    c.eq('resampled data are used', o._rawtraces, y)
    c.eq('with the new rate', o._fs, nfs)
    o = mk(x, 8.0, 2.0, 1.0, 1.0, autoresample=True)
    c.same('not resampled without need', len(seen), 1)
    c.eq('data as they are', o._rawtraces, x)
    c.eq('rate as it is', o._fs, 8)


def jobs(tier):
    big = tier == 'thorough'
    J = []
    A = [  # nt raw per duty cls conc dt add again nan
        (1, 4, 4, None, 'base', False, F(0), False, False, None),
        (2, 4, 4, None, 'didv', True, F(3, 2), False, False, None),
        (2, 9, 8, None, 'priors', True, F(-1, 2), False, False, None),
        (1, 8, 4, None, 'didv', True, F(5, 4), True, True, None),
        (1, 11, 4, F(1, 2), 'base', True, F(-3), False, True, None),
        (1, 4, 4, F(1, 4), 'didv', False, F(0), True, False, None),
        (2, 5, 4, F(1, 4), 'base', True, F(1), False, False, None),
        (1, 7, 6, F(1, 3), 'priors', True, F(1, 3), False, False, None),
        (1, 4, 4, None, 'didv', True, F(0), False, False, (0, 2)),
        (2, 5, 4, None, 'didv', True, F(0), True, True, (1, 0)),
        (1, 12, 12, None, 'didv', True, F(7, 2), False, False, None),
        (1, 16, 4, None, 'base', True, F(9, 2), True, False, None)]
    if big:
        A += [(3, 4, 4, None, 'didv', False, F(0), False, False, None),
              (2, 12, 12, None, 'didv', True, F(0), False, False, None),
              (2, 12, 6, F(2, 3), 'didv', True, F(2), True, True, (0, 5)),
              (2, 17, 8, F(3, 4), 'base', True, F(-9, 2), False, False, (2, 3)),
              (3, 9, 8, None, 'priors', True, F(1, 2), True, False, None)]
    for nt, raw, per, d, cls, conc, dt, add, again, nan in A:
        J.append(('proc/%d/%d/%d/%s/%s/%s/%s/%s/%s' % (nt, raw, per, d, cls, dt, add, again, nan), h_proc,
                  dict(nt=nt, raw=raw, per=per, d=d, cls=cls, conc=conc, dt=dt, add=add, again=again, nan=nan)))
    for n, m, d, poles, sym in ((4, 1, None, 1, N1), (8, 2, None, 2, ['l']), (4, 1, F(1, 4), 3, ['L']),
                                (8, 1, None, 3, ['tau0'])):
        J.append(('roundtrip/%d/%d/%s/%d' % (n, m, d, poles), h_round, dict(n=n, m=m, d=d, poles=poles, sym=sym)))
    J.append(('periods/1', h_periods, dict(fss=(2, 10, 49, 98, 103), g=1, ms=(1, 2))))
    J.append(('periods/7', h_periods, dict(fss=(7 * 49, 7 * 55), g=7, ms=(1, 3))))
    for per, m, dt, add in ((4, 1, F(0), False), (4, 2, F(1, 2), True), (12, 2, F(-7, 2), False), (8, 3, F(13, 3), True),
                           (21, 2, F(5, 2), False)):
        J.append(('init/%d/%d/%s/%s' % (per, m, dt, add), h_init, dict(per=per, m=m, dt=dt, add=add)))
    for cls in CLS:
        J.append(('rate/' + cls, h_rate, dict(cls=cls)))
    return J
