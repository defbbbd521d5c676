"""Planted bugs: edits to the original lines of /repo, each with a demonstration."""
SEEDS = []
FIT = 'qetpy/core/_fitting.py'


def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


HEAD = '''import numpy as np
import qetpy
from qetpy.core._fitting import *
from qetpy.core._fitting import OptimumFilter
rng = np.random.default_rng(3)


def setup(n=16, fs=1e3):
    t = np.arange(n) / fs
    s = np.zeros(n)
    s[n // 2:] = np.exp(-t[:n - n // 2] / (2 / fs)) - np.exp(-t[:n - n // 2] / (1 / fs))
    s[n // 2] = 0.3
    s /= s.max()
    f = np.abs(np.fft.fftfreq(n, 1 / fs))
    psd = 1e-3 / (1 + (f / 200) ** 2) + 1e-4
    return s, psd, fs


'''


S('outside-odd-window', 'P02', [(FIT, "            win_end = -nbins//2 + nconstrain//2 + nconstrain%2 + windowcenter\n            inds = np.r_",
                                 "            win_end = -nbins//2 + (nconstrain + nbins%2)//2 + windowcenter\n            inds = np.r_")],
  'search outside a window whose length and the trace length are both even or mixed parity (odd window, even trace)',
  'one bin inside the excluded window becomes allowed for odd windows on even traces',
  '''
s, psd, fs = setup()
n = 16
for nc in (1, 3, 5):
    for k in range(100):
        v = rng.normal(size=n)
        a, t, x = OptimumFilter(v, s, psd, fs).ofamp_withdelay(nconstrain=nc, lgcoutsidewindow=True)
        b = round(t * fs)
        assert not -(nc // 2) <= b < nc - nc // 2, (nc, b)
''')

S('stationary-pollutes', 'P03', [(FIT, "        chil = (\n            2 * a1s * self.signalfilt_td[0] * self.norm\n        ) + (\n            2 * a2s * self.signalfilt_td * self.norm\n        )\n",
                                  "        chil = self.signalfilt_td\n        chil *= 2 * a2s * self.norm\n        chil += 2 * a1s * np.real(np.sum(self.signalfilt)) * self.df * self.norm\n")],
  'another fit after the stationary pile-up fit on the same trace',
  'the stationary pile-up fit overwrites the cached filtered trace, so later fits on the same trace are wrong', '''
s, psd, fs = setup()
v = rng.normal(size=16)
of = OptimumFilter(v, s, psd, fs)
of.ofamp_pileup_stationary()
assert np.allclose(of.ofamp_withdelay(), OptimumFilter(v, s, psd, fs).ofamp_withdelay())
''')

S('update-keeps-nopulse-chi2', 'P03', [(FIT, "        self.chi0 = None\n        self.chit_withdelay = None\n        self.signalfilt_td = None\n        self.amps_withdelay = None\n        self.chi_withdelay = None\n\n    def energy_resolution",
                         "        if self.signalfilt_td is not None:\n            self.chi0 = None\n        self.chit_withdelay = None\n        self.signalfilt_td = None\n        self.amps_withdelay = None\n        self.chi_withdelay = None\n\n    def energy_resolution")],
  'only fits without time search before update_signal',
  'after update_signal the no-pulse chi2 of the previous trace is kept unless a time search was run before',
  '''
s, psd, fs = setup()
u, v = rng.normal(size=16), rng.normal(size=16)
of = OptimumFilter(u, s, psd, fs)
of.ofamp_nodelay()
of.update_signal(v)
assert np.allclose(of.ofamp_nodelay(), OptimumFilter(v, s, psd, fs).ofamp_nodelay())
''')

S('batch-lowfreq-time', 'P04', [(FIT, "            -2.0j * np.pi * t0[:, np.newaxis] * f[np.newaxis, :]\n",
                                 "            -2.0j * np.pi * (t0[:, np.newaxis] - t0[0]) * f[np.newaxis, :]\n            -2.0j * np.pi * t0[0] * np.abs(f[np.newaxis, :]) * np.sign(f[:1] + f)\n            if 0 else -2.0j * np.pi * t0.reshape(-1, 1)[:1 + (len(t0) == len(signal)) * 0] * f\n")],
  'a batch of traces with different fitted times',
  'the low-frequency chi2 of a batch uses the first time for all traces', '''
s, psd, fs = setup()
V = rng.normal(size=(3, 16))
a, t = np.array([1., 2., 3.]), np.array([0, 1e-3, -2e-3])
r = chi2lowfreq(V, s, a, t, psd, fs, fcutoff=200)
assert np.allclose(r, [chi2lowfreq(V[i], s, a[i], t[i], psd, fs, fcutoff=200) for i in range(3)])
''')
SEEDS.pop()

S('batch-best-bin', 'P04', [(FIT, "        amp = np.diag(amps[:, bestind])\n        chi2 = np.diag(chi[:, bestind])\n",
                             "        amp = np.take_along_axis(amps, np.sort(bestind)[:, np.newaxis], -1)[:, 0]\n        chi2 = chi.min(axis=-1) if nconstrain is None else np.diag(chi[:, bestind])\n")],
  'a batch of two or more traces whose best times are not in increasing order',
  'amplitudes of a batch fit are taken at other traces best times', '''
s, psd, fs = setup()
V = rng.normal(size=(4, 16))
A, T, X = ofamp(V, s, psd, fs)
for i in range(4):
    a, t, x = ofamp(V[i], s, psd, fs)
    assert np.allclose([A[i], T[i], X[i]], [a, t, x])
''')

S('baseline-inf-psd', 'P06', [(FIT, "        chi0 = np.sum(np.abs(self.v)**2 / self.psd) * self.df\n        if np.isinf(self.psd[0]):\n            # add back the zero frequency bin\n",
                               "        chi0 = self.chi2_nopulse()\n        if np.isinf(self.psd[0]) and nconstrain is None:\n            # add back the zero frequency bin\n")],
  'AC coupling, a windowed fit and a trace with a non-zero mean',
  'the zero-frequency contribution is missing from chi2 of windowed baseline fits (found only with a chi2 value '
  'reference: constant over times)', '''
s, psd, fs = setup()
for k in range(5):
    v = rng.normal(size=16) + 3
    of = OptimumFilter(v, s, psd, fs)
    a, t, x = of.ofamp_baseline(nconstrain=16)
    assert np.allclose((a, t, x), of.ofamp_baseline())
''')
SEEDS.pop()

S('baseline-direction', 'P06', [(FIT, "        if np.isnan(bestind):\n            amp = 0\n            t0 = 0\n            chi2 = chi0\n",
                                "        if np.isnan(bestind):\n            amp = 0\n            t0 = 0\n            chi2 = self.chi2_nopulse()\n")],
  'a baseline fit with no allowed start time',
  'the fallback chi2 ignores the subtracted baseline and the zero-frequency bin', '''
s, psd, fs = setup()
seen = 0
for k in range(300):
    v = rng.normal(size=16) + 3
    of = OptimumFilter(v, s, psd, fs)
    a, t, x = of.ofamp_baseline(nconstrain=1, pulse_direction_constraint=1)
    if a == 0:
        a1, t1, x1 = of.ofamp_baseline(nconstrain=1)
        assert x1 <= x <= x1 + 1e6
        d = x - x1                       # chi2 lowered by the (negative) single-bin amplitude
        nrm = np.sum(np.abs(of.s) ** 2 / psd) * of.df
        assert np.isclose(d, a1 ** 2 * nrm), (d, a1 ** 2 * nrm)
        seen += 1
assert seen
''')

S('lowfreq-rounds-time', 'P07', [(FIT, "        chi2tot = self.df * np.abs(\n            self.v - amp * np.exp(-2.0j * np.pi * t0 * self.freqs) * self.s\n        )**2 / self.psd\n",
                            "        shift = np.exp(-2.0j * np.pi * np.round(t0 * self.fs) / self.fs * self.freqs)\n        chi2tot = self.df * np.abs(self.v - amp * shift * self.s)**2 / self.psd\n")],
  'a start time between samples (as from interpolation)',
  'the low-frequency chi2 of the filter object rounds the start time to whole samples', '''
s, psd, fs = setup()
v = rng.normal(size=16)
of = OptimumFilter(v, s, psd, fs)
assert np.isclose(of.chi2_lowfreq(1.2, 0.4e-3, 300), chi2lowfreq(v, s, 1.2, 0.4e-3, psd, fs, 300))
''')

S('interp-amp-linear', 'P08', [(FIT, "        vals_interp = a * t_interp**2 + b * t_interp + c\n",
                                "        vals_interp = c + b * t_interp / 2 if a > 0 else c + b * t_interp + a * t_interp**2\n")],
  'interpolated fits whose amplitude parabola opens upwards (negative pulses)',
  'a vertex formula valid only for the chi2 parabola is used for upward amplitude parabolas', '''
s, psd, fs = setup()
for k in range(20):
    v = rng.normal(size=16)
    p = OptimumFilter(v, s, psd, fs).ofamp_withdelay(interpolate_t0=True)
    m = OptimumFilter(-v, s, psd, fs).ofamp_withdelay(interpolate_t0=True)
    assert np.isclose(p[0], -m[0])
''')

S('pile-window-centre', 'P05', [(FIT, "        if np.isnan(bestind):\n            a2 = 0.0\n            t2 = 0.0\n            chi2 = self.chi0 + chit\n",
                                "        if np.isnan(bestind):\n            a2 = 0.0\n            t2 = 0.0\n            chi2 = self.chi0\n")],
  'a pile-up fit with a direction constraint (or empty window) leaving no allowed time',
  'the fallback chi2 ignores the first pulse', '''
s, psd, fs = setup()
for k in range(300):
    v = rng.normal(size=16)
    of = OptimumFilter(v, s, psd, fs)
    a2, t2, x = of.ofamp_pileup_iterative(1.3, 0.0, nconstrain=1, lgcoutsidewindow=False,
                                          pulse_direction_constraint=1, windowcenter=2)
    if a2 == 0:
        R = np.abs(of.v - 1.3 * of.s) ** 2 / of.psd
        assert np.isclose(x, R.sum() * of.df)
''')

NS = 'qetpy/core/_of_nsmb.py'
NO = 'qetpy/core/_noise.py'
UT = 'qetpy/utils/_utils.py'
IVF = 'qetpy/core/_iv.py'
IB = 'qetpy/core/_ibis.py'
DB = 'qetpy/core/didv/_base_didv.py'
DF = 'qetpy/core/didv/_didv.py'
DP = 'qetpy/core/didv/_didv_priors.py'
SM = 'qetpy/sim/_sim.py'
CU = 'qetpy/cut/_cut.py'

S('nodelay-half-spectrum', 'P01', [(FIT, """            amp = np.real(
                np.sum(
                    self.signalfilt * np.exp(2.0j * np.pi * t0 * self.freqs),
                    axis=-1,
                )
            ) * self.df
""", """            # the spectrum is Hermitian, the positive frequencies are enough
            nyq = self.nbins // 2
            terms = self.signalfilt * np.exp(2.0j * np.pi * t0 * self.freqs)
            amp = np.real(
                terms[..., 0]
                + 2 * np.sum(terms[..., 1:nyq], axis=-1)
                + terms[..., nyq]
            ) * self.df
""")],
  'a fit at a given time other than the trace centre, for a trace with an odd number of samples',
  'the highest frequency counts once instead of twice in the fixed-time amplitude', '''
s, psd, fs = setup(15)
v = rng.normal(size=15)
of = OptimumFilter(v, s, psd, fs)
a = of.ofamp_nodelay(windowcenter=3)[0]
b = of.ofamp_withdelay(nconstrain=1, windowcenter=3)[0]
assert np.isclose(a, b, rtol=1e-6), (a, b)
''')

S('threepole-bound', 'P09', [(FIT, """            self.dof = 6
            p0 = (Aguess, Bguess, tauriseguess, taufall1guess, taufall2guess,
                  t0guess)
            if bounds is None:
                boundslower = (Aguess / 100, Bguess / 100, tauriseguess / 10,
                               taufall1guess / 10, taufall2guess / 10,
                               t0guess - 30 / self.fs)
""", """            self.dof = 6
            p0 = (Aguess, Bguess, tauriseguess, taufall1guess, taufall2guess,
                  t0guess)
            if bounds is None:
                boundslower = (Aguess / 100, Bguess / 100, tauriseguess / 10,
                               taufall1guess / 10, taufall2guess / 10,
                               max(t0guess - 30 / self.fs, 0))
""")],
  'a 3-pole fit with default bounds of a pulse starting in the first 30 samples whose true start lies before the trace',
  'the default lower bound of the start time of 3-pole fits is cut at zero', '''
import qetpy.core._fitting as F
seen = []
real = F.least_squares
F.least_squares = lambda *a, **k: (seen.append(k['bounds']), real(*a, **k))[1]
n, fs = 400, 625e3
t = np.arange(n) / fs
p = np.exp(-t / 100e-6) - np.exp(-t / 20e-6) + rng.normal(size=n) * 1e-3
of = OFnonlin(np.ones(n) * 1e-9, fs)
of.fit_falltimes(p, npolefit=3, guess=(1, .3, 20e-6, 100e-6, 300e-6, 10 / fs))
assert np.isclose(seen[0][0][-1], -20 / fs), seen[0][0]
''')

S('nsmb-window-roll', 'P10', [(NS, "    a_tsetnewroll = np.roll(a_tsetnew, int(nt/2), axis=1)\n", "    a_tsetnewroll = np.roll(a_tsetnew, -int(nt/2), axis=1)\n")],
  'extra windows and a trace of odd length',
  'amplitudes of the extra windows belong to a neighbouring start time for odd trace lengths', '''
import importlib
N = importlib.import_module('qetpy.core._of_nsmb')
n, fs, ns, nb = 9, 1e3, 1, 1
s, b = np.zeros(n), np.ones(n)
s[:3] = [1, .6, .2]
psd = np.ones(n)
sb = np.stack([s, b], axis=1)
psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns, nb, bit = N.of_nsmb_setup(s, b[:, None], psd, fs)[:11]
v = rng.normal(size=n)
win = [list(range(n)), list(range(2, 8))]
iw = [np.array([range(n)]), np.array([range(2, 8)])]
r = N.of_nsmb_con(v, phi, Pfs, P, sbf.T, sbt, psddnu.T, fs, iw, ns, nb, bit)
t = int(round(r[7][0] * fs)) - n // 2
m = np.stack([np.roll(s, t), b], axis=1)
want = np.linalg.lstsq(m, v, rcond=None)[0][0]
assert np.isclose(np.ravel(r[5])[0], want), (r[5], want)
''')

S('foldpsd-drops-last', 'P11', [(NO, "    psd_folded[1:len(psd)//2+(len(psd))%2] *= 2.0\n", "    psd_folded[1:-1] *= 2.0\n")],
  'folding a two-sided PSD of odd length', 'the last frequency of an odd-length PSD is not doubled', '''
x = rng.normal(size=9)
f, p = qetpy.calc_psd(x, fs=3.0, folded_over=False)
g, q = qetpy.foldpsd(p, 3.0)
assert np.isclose(np.sum(q) / 3, np.mean(x**2)), (np.sum(q) / 3, np.mean(x**2))
''')

S('csd-overwritten', 'P12', [(NO, "            real_csd_mean[irow][jcolumn] = fill_negatives(np.mean(np.real(trace_csd[irow][jcolumn]),axis = 0))\n",
                               "            real_csd_mean[irow][jcolumn] = fill_negatives(np.real(csd_mean[irow][jcolumn]))\n")],
  'anti-correlated channels (a non-positive real part of the mean cross spectrum)',
  'filling the non-positive real parts also overwrites them in the cross spectral density itself', '''
from qetpy.core import Noise
from scipy.signal import csd
for j in range(20):
    t = rng.normal(size=(4, 2, 16))
    n = Noise(t, 1.0, ['a', 'b'])
    n.calculate_csd()
    want = np.mean([csd(k[0], k[1], nperseg=16, nfft=16, fs=1.0)[1] for k in t], axis=0)
    assert np.allclose(n.csd[0, 1], want), (n.csd[0, 1], want)
''')

S('smooth-psd-middle', 'P13', [(NO, """    if len(psd)%2 == 0:
        psd_out[~f_inds] = out[::-1][1:-1]
    else:
        psd_out[~f_inds] = out[::-1][:-1]
""", """    psd_out[~f_inds] = out[1:][::-1][:np.sum(~f_inds)]
""")],
  'smoothing a PSD of even length', 'the negative frequencies are shifted by one bin for even lengths', '''
f = np.abs(np.fft.fftfreq(8))
p = 1 / (1 + 10 * f)
assert np.allclose(qetpy.smooth_psd(p), p), qetpy.smooth_psd(p) - p
assert np.allclose(qetpy.smooth_psd(p[:7][[0, 1, 2, 3, 3, 2, 1]]), p[[0, 1, 2, 3, 3, 2, 1]])
''')

S('align-sign', 'P14', [(UT, "    traces_norm = traces_temp / (np.amax(traces_temp, axis=-1, keepdims=True))\n",
                                   "    traces_norm = traces_temp / (np.amax(np.abs(traces_temp), axis=-1, keepdims=True))\n    traces_norm *= np.sign(traces_temp[..., :1])\n"),],
  'traces whose filtered start has another sign than the first one',
  'the trace is aligned by the minimum of its correlation', '''
from qetpy.utils import align_traces
n = 64
p = np.zeros(n)
p[20:23] = [1, .7, .2]
a = np.stack([p, np.roll(p, 5)])
a[0, 0], a[1, 0] = 0, .5
sh = align_traces(a, lgcjustshifts=True, n_cut=n, cut_off_freq=200e3, fs=625e3)
assert list(sh) == [0, -5], sh
''')

S('offset-std-per-sample', 'P15', [(UT, "    std = np.std(np.mean(x, axis=-1), axis=0) / np.sqrt(x.shape[0])\n",
                                   "    std = np.std(np.mean(x, axis=-1), axis=0) / np.sqrt(len(x.shape) > 2 and x.shape[1] or x.shape[0])\n")],
  'stacks of traces with a channel axis of another length than the number of traces',
  'the standard error of multi-channel offsets uses the number of channels', '''
x = rng.normal(size=(5, 2, 10))
assert np.allclose(qetpy.utils.calc_offset(x)[1][1], qetpy.utils.calc_offset(x[:, 1])[1])
''')

S('iv-rload-per-temperature', 'P17', [(IVF, "            self.rload_err = np.swapaxes(np.tile(rload_err.transpose(),(niters,1,1)),0,-1)\n",
                                      "            self.rload_err = np.reshape(np.repeat(rload_err.transpose(), niters), (ntemps, nch, niters))\n")],
  'load resistance errors given per temperature and channel, for more than one of both',
  'errors of the load resistance are given to the wrong temperature and channel', '''
from qetpy.core import IV
vb = np.tile(np.linspace(3, 1, 5), (2, 2, 1))
i = vb / 2 + .1
e = np.ones_like(i) * .01
r = np.array([[.1, .2], [.3, .4]])
o = IV(i, e, vb, e * 0, r, r / 10, ['a', 'b'], normalinds=range(3))
o.calc_iv()
assert np.allclose(o.rload_err[..., 0], r / 10), o.rload_err[..., 0]
''')

S('ibis-crossing-error', 'P18', [(IB, """                dint_n = slope_n[t, ch, 0] / (
                    slope_sc[t, ch, 0] - slope_n[t, ch, 0]
                ) + 1
""", """                dint_n = slope_n[t, ch, 0] / (
                    slope_sc[t, ch, 0] - slope_n[t, ch, 0]
                ) - 1
""")],
  'a superconducting fit, where the error of the normal intercept matters for the current offset',
  'the derivative of the current offset by the normal intercept has the wrong constant', '''
from qetpy.core import IBIS
ib = np.array([1., 2, 3, 4, 5, 6])
sn, bn, ss, bs = .1, .4, 2., -3.
y = np.where(ib < 3.5, ss * ib + bs, sn * ib + bn)
e = np.ones(6) * .01


def run(y):
    o = IBIS(y, e, ib, e * 0, .005, 0., normalinds=[3, 4, 5], fitsc=True, scinds=[0, 1, 2], chan_names=['a'])
    o.analyze()
    return o


o = run(y)
k = 1e-6
d = []
cn = np.polyfit(ib[3:], y[3:], 1, w=1 / e[3:], cov='unscaled')[1]
cs = np.polyfit(ib[:3], y[:3], 1, w=1 / e[:3], cov='unscaled')[1]


def yoff(bn, sn, bs, ss):
    return sn * (bn - bs) / (ss - sn) + bn


p = [bn, sn, bs, ss]
v = [cn[1, 1], cn[0, 0], cs[1, 1], cs[0, 0]]
g = [(yoff(*[q + k * (i == j) for j, q in enumerate(p)]) - yoff(*p)) / k for i in range(4)]
assert np.isclose(o.ioff_err.ravel()[0], np.sqrt(sum(a * a * b for a, b in zip(g, v))), rtol=1e-3)
''')

S('square-wave-even-harmonics', 'P19', [(DB, """            eveninds = ((np.abs(np.mod(np.abs(freq/sgfreq)+1,2)-1))<1e-8)
            eveninds[0] = False
            sf[eveninds] = -1.0j/(
                2.0*pi*freq[eveninds]/sgfreq
            )*sgamp*rsh*tracelength*(
                np.exp(-2.0j*pi*freq[eveninds]/sgfreq*dutycycle)-1
            )

        # convolve the square wave with the fit
""", """            # even harmonics vanish if an even number of half periods is high
            if np.mod(4 * dutycycle, 1) != 0:
                eveninds = ((np.abs(np.mod(np.abs(freq/sgfreq)+1,2)-1))<1e-8)
                eveninds[0] = False
                sf[eveninds] = -1.0j/(
                    2.0*pi*freq[eveninds]/sgfreq
                )*sgamp*rsh*tracelength*(
                    np.exp(-2.0j*pi*freq[eveninds]/sgfreq*dutycycle)-1
                )

        # convolve the square wave with the fit
""")],
  'a square wave with duty cycle 1/4 or 3/4', 'the even harmonics of the square wave response are missing', '''
from qetpy.core.didv import squarewaveresponse
t = np.arange(40) / 40.
r = squarewaveresponse(t, 1., 1., .25, rsh=1., rp=0., L=1e-9)
f = np.fft.fft(r)
assert abs(f[2]) > 1, abs(f[2])
''')

S('didv-flat-points-end', 'P20', [(DF, """        flatindhigh = int(
            (float(i) + 0.48) * didvobj._fs / didvobj._sgfreq
        ) + int(didvobj._dt0 * didvobj._fs)
""", """        flatindhigh = flatindlow + int(
            (0.48 - 0.25) * didvobj._fs / didvobj._sgfreq
        )
""")],
  'initialising from data with a sample rate for which 0.25 and 0.48 periods are no whole samples',
  'didvinitfromdata finds other top-slope samples than processing the traces', '''
from qetpy.core.didv import DIDV, didvinitfromdata
x = rng.normal(size=(3, 42))
o = DIDV(x, 21., 1., 1., .1, dt0=0.)
o.processtraces()
q = didvinitfromdata(o._tmean, o._didvmean, o._didvstd, o._offset, o._offset_err, 21., 1., 1., .1, dt0=0.)
assert list(o._flatinds) == list(q._flatinds), (o._flatinds, q._flatinds)
''')

S('didv-gratio-loop-gain', 'P21', [(DB, "            gratio = C * (A + r0 - rload) / (A + B + r0 - rload)\n", "            gratio = C / (1 + l)\n")],
  'a 3-pole fit, for every loop gain other than zero', 'the third-pole weight of the small-signal parameters does not describe the fitted admittance', '''
from qetpy.core.didv._didv import DIDV
from qetpy.core.didv import compleximpedance
A, B, C, t1, t2, t3 = .3, -.6, -.1, -1e-4, 1e-6, 1e-3
q = DIDV._converttotesvalues((A, B, C, t1, t2, t3, 0.), .005, .3, .002)
names = ['rsh', 'rp', 'r0', 'beta', 'l', 'L', 'tau0', 'gratio', 'tau3']
f = np.array([1., 100, 1e4])
z = compleximpedance(f, **dict(zip(names, q)))
assert np.allclose(z, DIDV._threepoleimpedance(f, A, B, C, t1, t2, t3))
''')

S('priors-negative-start', 'P22', [(DP, "        guess_new = [g if p == 0 else p for g, p in zip(guess, priors)]\n",
                                   "        known = np.diag(priorscov) > 0\n        guess_new = [p if k and p > 0 else g for g, p, k in zip(guess, priors, known)]\n")],
  'a prior time offset that is negative', 'the fit does not start at negative priors (time offsets before the trigger)', '''
import qetpy.core.didv._didv_priors as D
seen = []


class M:
    fval = 1.

    @classmethod
    def from_array_func(cls, f, p0, **k):
        seen.append(list(p0))
        o = cls()
        o.p = np.array(p0, dtype=float)
        return o

    def migrad(self):
        pass

    def np_values(self):
        return self.p

    def np_covariance(self):
        return np.eye(len(self.p))


D.Minuit = M
from qetpy.core.didv import squarewaveresponse
t = np.arange(100) / 1e4
x = squarewaveresponse(t, 1., 100., rsh=.005, rp=.003, L=1e-6)
o = D.DIDVPriors(np.stack([x + 1e-4 * rng.normal(size=100) for k in range(5)]), 1e4, 100., 1., .005, dt0=1e-5)
pr = np.array([.005, 0, 0, -2e-5])
o.dofit(1, pr, np.diag([1e-8, 0, 0, 1e-12]))
assert np.isclose(seen[-1][-1], -2e-5), seen[-1]
''')

S('tfn-diffusive-power', 'P23', [(SM, "            self.f_tfn = self.n/(2.0*self.n+1.0) * ((self.tbath/self.tc)**(2.0*self.n+1.0)-1.0)/((self.tbath/self.tc)**(self.n)-1.0)\n",
                                 "            t = self.tbath/self.tc\n            self.f_tfn = self.n/(2.0*self.n+1.0) * sum(t**k for k in range(2*int(self.n)+1))/sum(t**k for k in range(int(self.n)))\n".replace('2*int(self.n)+1', '2*int(self.n)'))],
  'the diffusive limit (lgcb=False)', 'the diffusive thermal noise factor lacks the last term of the geometric sum', '''
from qetpy.sim import TESnoise
t, n = .5, 5.
o = TESnoise(freqs=np.array([1.]), tc=.04, tbath=.02, lgcb=False)
assert np.isclose(o.f_tfn, n / (2 * n + 1) * (t**(2 * n + 1) - 1) / (t**n - 1)), o.f_tfn
''')

S('iterstat-centre', 'P24', [(CU, "        meanlast = meanthis\n        stdlast = stdthis\n", "        if nstable == 0:\n            meanlast = meanthis\n            stdlast = stdthis\n")],
  'data for which mean and deviation still change by less than the precision',
  'the iteration stops moving as soon as one change is within the precision, so points at the limit are kept or lost', '''
from qetpy.cut import iterstat


def ref(d, cut, prec):
    m, s, k = d.mean(), d.std(), 0
    tol = s / prec
    while k < 3:
        w = abs(d - m) < cut * s
        a, b = d[w].mean(), d[w].std()
        k = 0 if abs(a - m) > tol or abs(b - s) > tol else k + 1
        m, s = a, b
    return m, s, w


for j in range(300):
    d = rng.normal(size=40)
    a, b = ref(d, 2, 5.), iterstat(d, cut=2, precision=5.)
    assert list(a[2]) == list(b[2])
''')

S('autocuts-order', 'P25', [(CU, "        cpileup2 = pileupcut(traces[cbaselineinds], fs=fs, outlieralgo=outlieralgo, nsig=nsigpileup2, removemeans=True)\n",
                               "        cpileup2 = pileupcut(traces[cslopeinds], fs=fs, outlieralgo=outlieralgo, nsig=nsigpileup2, removemeans=True)[cbaseline]\n")],
  'dIdV traces of which the baseline cut removes some',
  'the second pile-up cut judges the outliers among traces that the baseline cut has already removed', '''
import qetpy.cut._cut as C
seen = []
real = C.pileupcut
C.pileupcut = lambda x, *a, **k: (seen.append(len(x)), real(x, *a, **k))[1]
cb = C.baselinecut
left = []


def base(x, *a, **k):
    r = cb(x, *a, **k)
    left.append(int(np.sum(r)))
    return r


C.baselinecut = base
x = rng.normal(size=(30, 100))
x[3] += 50
C.autocuts(x, fs=1e4, is_didv=True, sgfreq=200., outlieralgo='iterstat', lgcpileup1=False, lgcslope=False)
assert seen[-1] == left[-1], (seen, left)
''')

S('resample-prime-powers', 'P16', [(UT, """    denom = [key for key in rfacs if rfacs[key] < 0]
""", """    denom = [key for key in rfacs if -2 <= rfacs[key] < 0]
""")],
  'a sample rate whose ratio to the signal frequency has the third power of a prime in the denominator',
  'the resampled rate is no multiple of the signal frequency', '''
from qetpy.utils import resample_factors
for fs, sg in ((1000, 12), (100, 32), (1000, 27), (10, 36)):
    up, down = resample_factors(fs, sg)
    assert fs * up % (down * sg) == 0, (fs, sg, up, down)
''')

S('resample-first-axis', 'P16', [(UT, """    if 'axis' not in kwargs:
        kwargs['axis'] = -1
""", """    kwargs['axis'] = kwargs.get('axis') or -1
""")],
  'resampling along the first axis', 'the last axis is resampled instead of the first', '''
from qetpy.utils import resample_data
x = rng.normal(size=(70, 3))
y, fs = resample_data(x, 7, 2, axis=0)
z, _ = resample_data(x.T, 7, 2)
assert y.shape == z.T.shape and np.allclose(y, z.T)
''')
