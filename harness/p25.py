"""P25: automatic cuts."""
import itertools
import math
import warnings
import numpy
import qetpy
from qetpy.cut import _cut as C
from harness.ref import *

warnings.simplefilter('ignore')
numpy.seterr(all='ignore')

BOUNDS = ('3-5 traces of 10-64 samples with up to 3 symbolic values deciding the cuts; symmetrisation of up to 9 values '
          '(3 symbolic); saturation cut for traces of 4-7 symbolic samples')
ASSUMPTIONS = ['the optimum filter is an arbitrary function of the trace (amplitude and chi2 are given samples of it)',
               'random choices are arbitrary']
OPT = {}


def filt(c, n, fs, log=None):
    """amplitude = sample 5 (before the slope regions), chi2 = sample 6"""
    t = [(i + 1 - round(n / 2)) / fs for i in range(n)]
    s = [(1 - math.exp(-v / 10e-6)) * math.exp(-v / 100e-6) if v >= 0 else 0 for v in t]
    m = max(s)

    def ofamp(signal, template, psd, f, *a, **k):
        c.true('no options', not a and not k)
        c.true('template is the normalised pulse', len(template) == n and
               all(abs(u - v / m) < 1e-12 for u, v in zip(template, s)))
        c.true('white noise', len(psd) == n and all(v == 1 for v in psd))
        c.true('sample rate', abs(f / fs - 1) < 1e-12)
        if log is not None:
            log.append(signal)
        return signal[5], 0.0, signal[6]
    c.stub(qetpy.ofamp, ofamp)


def traces(c, nt, n, sym, seed=0):
    """sym: (trace, 'amp' | 'chi2' | 'begin' | 'end' | sample) -> symbolic"""
    np = c.np
    rows = [[c.num(F((7 * i * i + 3 * j * (i + seed + 1)) % 11, 4)) for j in range(n)] for i in range(nt)]
    for t, w in sym:
        j = {'amp': 5, 'chi2': 6, 'begin': 0, 'end': n - 1}.get(w, w)
        rows[t][j] = c.real('x%d_%d' % (t, j), lo=-8, hi=8)
    return np.array(rows)


def bools(m):
    return [bool(v) for v in m]


def algo(c, name, v, nsig, alg=None):
    if alg:
        return alg[name](v, nsig)
    v = c.np.array(v)
    if name == 'removeoutliers':
        return bools(C.removeoutliers(v))
    return bools(C.iterstat(v, cut=nsig, precision=10000.0)[2])


def simple(c):
    """any outlier algorithm will do for the composition of the cuts: cheap ones"""
    def stat(data, cut=3, precision=1000.0, **k):
        d = c.np.array(data)
        m = mean([d[i] for i in range(len(d))])
        r = [bool(c.fork(v - m <= cut)) and bool(c.fork(m - v <= cut)) for v in d]
        return m, c.num(1), numpy.array(r if any(r) else [True] * len(r))

    def rem(data, *a, **k):
        d = c.np.array(data)
        m = mean([d[i] for i in range(len(d))])
        return numpy.array([bool(c.fork(v - m <= F(7, 4))) for v in d])
    c.stub(C.iterstat, stat)
    c.stub(C.removeoutliers, rem)
    return dict(iterstat=lambda v, ns: bools(stat(v, ns)[2]), removeoutliers=lambda v, ns: bools(rem(v)))


def ab(c, v):
    return v if c.fork(v >= 0) else -v


def mean(v):
    return sum(v) / len(v)


def kw_algo(c, name, nsig, default):
    kw = {}
    if name is not None:
        kw['outlieralgo'] = name
    if nsig is not None:
        kw['nsig'] = c.num(nsig)
    return kw, name or default, c.num(2 if nsig is None else nsig)


def h_pile(c, nt, n, fs, name, nsig, rm, sym, real=False):
    alg = None if real else simple(c)
    fsx = 625e3 if fs is None else fs
    filt(c, n, fsx)
    x = traces(c, nt, n, sym)
    keep = x.copy()
    kw, nm, ns = kw_algo(c, name, nsig, 'removeoutliers')
    if fs is not None:
        kw['fs'] = fs
    if rm is not None:
        kw['removemeans'] = rm
    got = C.pileupcut(x, **kw)
    c.eq('traces unmodified', x, keep)
    a = [ab(c, x[i, 5] - (mean([x[i, j] for j in range(n)]) if rm else 0)) for i in range(nt)]
    c.same('pileup cut removes the outliers of the amplitudes', bools(got), algo(c, nm, a, ns, alg))


def h_chi2(c, nt, n, fs, name, nsig, sym, real=False):
    alg = None if real else simple(c)
    fsx = 625e3 if fs is None else fs
    filt(c, n, fsx)
    x = traces(c, nt, n, sym)
    keep = x.copy()
    kw, nm, ns = kw_algo(c, name, nsig, 'iterstat')
    if fs is not None:
        kw['fs'] = fs
    got = C.chi2cut(x, **kw)
    c.eq('traces unmodified', x, keep)
    c.same('chi2 cut removes the outliers of the chi2', bools(got), algo(c, nm, [x[i, 6] for i in range(nt)], ns, alg))


def regions(n, per, didv):
    """samples used for the start and the end level"""
    if not didv:
        return range(0, n // 10), range(9 * n // 10, n)
    m = n // per
    if m > 1:
        return range(per // 4, 3 * per // 8), range((m - 1) * per + per // 4, (m - 1) * per + 3 * per // 8)
    return range(per // 4, 5 * per // 16), range(5 * per // 16, 3 * per // 8)


def h_level(c, which, nt, n, per, name, nsig, sym, real=False):
    alg = None if real else simple(c)
    x = traces(c, nt, n, sym)
    keep = x.copy()
    kw, nm, ns = kw_algo(c, name, nsig, 'removeoutliers')
    if per:
        kw.update(is_didv=True, sgfreq=1000.0, fs=1000.0 * per)
    b, e = regions(n, per, bool(per))
    lo = [mean([x[i, j] for j in b]) for i in range(nt)]
    if which == 'baseline':
        got = C.baselinecut(x, **kw)
        want = algo(c, nm, lo, ns, alg)
        c.same('baseline cut removes the outliers of the start level', bools(got), want)
    else:
        got = C.slopecut(x, **kw)
        v = [mean([x[i, j] for j in e]) - lo[i] for i in range(nt)]
        c.same('slope cut removes the outliers of end minus start level', bools(got), algo(c, nm, v, ns, alg))
    c.eq('traces unmodified', x, keep)


def chooser(c, log, again=None):
    """again: list of choices to repeat, once it is set"""
    again = {} if again is None else again

    def choice(a, size=None, replace=True, p=None):
        if 'it' in again:
            return numpy.array(next(again['it'])[1], dtype=int)
        c.true('drawn without replacement', replace is False and p is None)
        a = [int(v) for v in a]
        opts = list(itertools.combinations(a, int(size)))
        r = c.pick('choice%d' % len(log), opts)
        log.append((a, r))
        return numpy.array(r, dtype=int)
    c.stub(numpy.random.choice, choice)


def sym_ref(c, v, log):
    """values that stay after symmetrisation"""
    n = len(v)
    m = C.iterstat(c.np.array(v), cut=2, precision=10000.0)[0]
    w = [-u for u in v] if c.fork(m > 0) else list(v)
    top = w[0]
    for u in w[1:]:
        if c.fork(u > top):
            top = u
    nb = int(math.isqrt(n))
    nb += 1 - nb % 2
    if not c.fork(top > 0) or nb < 3:
        return [True] * n, None
    half = nb // 2
    out, bins = [], []
    for u in w:
        # centre bin is number 0
        if c.fork(u >= -top / nb):
            k = 0
            while k < half and c.fork(u >= top * F(2 * k + 1, nb)):
                k += 1
        else:
            k = -1
            while k >= -half and c.fork(u < top * F(2 * k - 1, nb)):
                k -= 1
        bins.append(k)
    for i in range(n):
        out.append(bins[i] >= 0)
    return out, (bins, half)


def h_symm(c, vals, slope=False):
    np = c.np
    v = [c.real('v%d' % i, lo=-6, hi=6) if u is None else c.num(u) for i, u in enumerate(vals)]
    n = len(v)
    log = []
    chooser(c, log)
    a = np.array(v)
    keep = a.copy()
    got = bools(C.symmetrizedist(a))
    c.eq('values unmodified', a, keep)
    base, info = sym_ref(c, v, log)
    if info is None:
        c.same('nothing to symmetrise', got, base)
        return
    bins, half = info
    for i in range(n):
        if bins[i] >= 0:
            c.true('the side with fewer events and the centre are kept', got[i])
        elif bins[i] < -half:
            c.true('values without counterpart are removed', not got[i])
    for k in range(1, half + 1):
        neg = [i for i in range(n) if bins[i] == -k]
        pos = [i for i in range(n) if bins[i] == k]
        c.same('as many values as in the mirrored bin are kept', sum(got[i] for i in neg), min(len(neg), len(pos)))
        for a_, r in log:
            if set(a_) & set(neg):
                c.same('random values of the bin are removed', sorted(i for i in neg if not got[i]), sorted(r))


def h_slsym(c, vals, name, nsig):
    """slope cut after symmetrisation"""
    np = c.np
    n = 10
    v = [c.real('v%d' % i, lo=-6, hi=6) if u is None else c.num(u) for i, u in enumerate(vals)]
    x = np.array([[c.num(0)] * (n - 1) + [u] for u in v])
    log, again = [], {}
    chooser(c, log, again)
    kw, nm, ns = kw_algo(c, name, nsig, 'removeoutliers')
    got = bools(C.slopecut(x, symmetrizeflag=True, **kw))
    again['it'] = iter(list(log))
    kept = bools(C.symmetrizedist(np.array(v)))
    idx = [i for i in range(len(v)) if kept[i]]
    m = algo(c, nm, [v[i] for i in idx], ns)
    want = [False] * len(v)
    for i, b in zip(idx, m):
        want[i] = b
    c.same('the outliers of the symmetrised slopes are cut', got, want)


def h_auto(c, nt, n, per, name, on, sig, sym, seed, real=False):
    """every cut acts on the traces the earlier ones left"""
    np = c.np
    alg = None if real else simple(c)
    fs = 1000.0 * per if per else 500e3
    filt(c, n, fs)
    x = traces(c, nt, n, sym, seed)
    keep = x.copy()
    kw = dict(fs=fs)
    if per:
        kw.update(is_didv=True, sgfreq=1000.0)
    if name is not None:
        kw['outlieralgo'] = name
    for k in ('pileup1', 'slope', 'baseline', 'pileup2', 'chi2'):
        if k not in on:
            kw['lgc' + k] = False
        if k in sig:
            kw['nsig' + k] = c.num(sig[k])
    got = C.autocuts(x, **kw)
    c.eq('traces unmodified', x, keep)
    nm = name or 'removeoutliers'
    s = {k: c.num(sig.get(k, 3 if k == 'chi2' else 2)) for k in ('pileup1', 'slope', 'baseline', 'pileup2', 'chi2')}
    b, e = regions(n, per, bool(per))
    idx = list(range(nt))

    def cut(vals, algorithm, nsig):
        m = algo(c, algorithm, vals, nsig, alg)
        return [i for i, k in zip(idx, m) if k]

    def lo(i):
        return mean([x[i, j] for j in b])
    if 'pileup1' in on:
        idx = cut([ab(c, x[i, 5]) for i in idx], nm, s['pileup1'])
    if 'slope' in on:
        idx = cut([mean([x[i, j] for j in e]) - lo(i) for i in idx], nm, s['slope'])
    if 'baseline' in on:
        idx = cut([lo(i) for i in idx], nm, s['baseline'])
    if 'pileup2' in on and per:
        idx = cut([ab(c, x[i, 5] - mean([x[i, j] for j in range(n)])) for i in idx], nm, s['pileup2'])
    if 'chi2' in on:
        idx = cut([x[i, 6] for i in idx], 'iterstat', s['chi2'])
    c.same('each cut acts on the traces left by the earlier ones', bools(got), [i in idx for i in range(nt)])


def h_muon(c, nt, n, thr, sat):
    np = c.np
    x = c.reals('x', (nt, n), lo=-5, hi=5)
    keep = x.copy()
    kw = {}
    if thr is not None:
        kw['thresh_pct'] = c.num(thr)
    if sat is not None:
        kw['nsatbins'] = sat
    got = C.get_muon_cut(x, **kw)
    c.eq('traces unmodified', x, keep)
    c.same('one flag per trace', tuple(got.shape), (nt,))
    for t in range(nt):
        p = 0
        for j in range(1, n):
            if c.fork(x[t, j] > x[t, p]):
                p = j
        want = False
        k = p + (600 if sat is None else sat)
        if k < n:
            want = c.fork(x[t, k] >= x[t, p] * c.num(F(19, 20) if thr is None else thr))
        c.same('saturated if still above the threshold nsatbins after the maximum', bool(got[t]), want)


def h_refuse(c):
    x = traces(c, 3, 10, [(0, 'amp')])
    filt(c, 10, 625e3)
    for f in (C.pileupcut, C.slopecut, C.baselinecut, C.chi2cut, C.autocuts):
        c.raises('unknown outlier algorithms are refused', ValueError,
                 lambda: f(x, outlieralgo='none') if f is not C.autocuts else f(x, outlieralgo=''))


def jobs(tier):
    big = tier == 'thorough'
    N = None
    J = []
    R, I = 'removeoutliers', 'iterstat'
    def real(a, k):
        return '/real' if a[k:] else ''
    for a in [(4, 10, N, N, N, N, [(1, 'amp'), (0, 'amp')]), (4, 11, 500e3, I, F(6, 5), False, [(2, 'amp'), (1, 'amp')]),
              (4, 10, 2e5, I, N, True, [(0, 'amp'), (0, 8)]), (3, 10, N, R, N, True, [(0, 'amp'), (1, 'amp')]),
              (4, 10, 2e5, I, F(5, 4), True, [(0, 'amp'), (0, 8)], True)] + \
            ([(5, 10, N, I, F(3, 2), True, [(0, 'amp'), (4, 'amp')], True), (3, 10, N, R, N, False, [(1, 'amp')], True), (4, 10, N, N, N, N, [(1, 'amp')], True),
              (6, 10, N, I, F(3, 2), True, [(0, 'amp'), (4, 'amp'), (3, 2)])] if big else []):
        J.append(('pileup/%d/%d/%s/%s/%s/%s/%d%s' % (a[:6] + (len(a[6]), real(a, 7))), h_pile,
                  dict(zip(('nt', 'n', 'fs', 'name', 'nsig', 'rm', 'sym', 'real'), a))))
    for a in [(4, 10, N, N, N, [(1, 'chi2'), (0, 'chi2')]), (4, 11, 500e3, I, F(6, 5), [(2, 'chi2'), (0, 'chi2')]),
              (4, 10, 2e5, R, N, [(0, 'chi2'), (3, 'chi2')]), (4, 10, 2e5, R, N, [(0, 'chi2')], True),
              (4, 10, N, N, N, [(1, 'chi2')], True)]:
        J.append(('chi2/%d/%d/%s/%s/%s/%d%s' % (a[:5] + (len(a[5]), real(a, 6))), h_chi2,
                  dict(zip(('nt', 'n', 'fs', 'name', 'nsig', 'sym', 'real'), a))))
    for w in ('slope', 'baseline'):
        for a in [(4, 10, 0, N, N, [(1, 'begin')]), (4, 20, 0, I, F(6, 5), [(0, 1), (2, 18)]),
                  (3, 37, 0, R, N, [(0, 2), (1, 33)]), (4, 64, 32, I, F(5, 4), [(0, 11), (3, 43)]),
                  (4, 33, 32, R, N, [(0, 9), (1, 11)]), (3, 16, 16, I, 1, [(0, 4), (1, 5)]),
                  (4, 50, 16, R, N, [(1, 4), (3, 37)]), (4, 50, 16, R, N, [(1, 4)], True),
                  (4, 10, 0, I, F(6, 5), [(1, 'begin')], True)]:
            J.append(('%s/%d/%d/%d/%s/%s/%d%s' % ((w,) + a[:5] + (len(a[5]), real(a, 6))), h_level,
                      dict(zip(('which', 'nt', 'n', 'per', 'name', 'nsig', 'sym', 'real'), (w,) + a))))
    S = [[N, 1], [N, -1, -2, F(1, 2)], [N, 1, 2, F(-1, 2)], [-1, -2, N, -1, 1, -1], [1, 2, N, 1, -1, 1, F(-5, 2)],
         [N, 4, 4, 1, F(-1, 3), 0, 1, 2, -3], [-1, -2, -3], [N, N, -1, -3, 1]]
    if big:
        S += [[N, 4, 4, 1, N, 0, 1, 2, -3], [N, N, N, 1], [-1, -2, N, -1, 1, -1, 3, N, -3], [N] + [F(i * i % 9 - 6, 2) for i in range(16)]]
    for v in S:
        J.append(('symm/' + ','.join('?' if u is None else str(u) for u in v), h_symm, dict(vals=v)))
    for v, nm, k in (([N, -1, -2, F(1, 2), -1], R, N), ([1, 2, N, 1, -1, 1], I, F(3, 2))):
        J.append(('slope-symm/%s/%s' % (','.join('?' if u is None else str(u) for u in v), nm), h_slsym,
                  dict(vals=v, name=nm, nsig=k)))
    ALL = ('pileup1', 'slope', 'baseline', 'pileup2', 'chi2')
    sg = dict(pileup1=F(8, 5), slope=F(7, 5), baseline=F(6, 5), pileup2=F(13, 10), chi2=F(11, 10))
    A = [(5, 10, 0, N, ALL, {}, [(1, 'amp')], 0), (5, 10, 0, I, ALL, sg, [(1, 'amp'), (2, 'end')], 0),
         (5, 10, 0, I, ALL, sg, [(2, 'end'), (0, 'chi2')], 1), (5, 16, 16, I, ALL, sg, [(0, 'amp')], 2),
         (5, 32, 16, R, ALL, sg, [(3, 'amp'), (2, 4)], 0), (5, 16, 16, N, ALL, sg, [(2, 4), (1, 'chi2')], 1),
         (4, 10, 0, I, ('slope', 'chi2'), sg, [(1, 'end'), (0, 'chi2')], 0),
         (4, 10, 0, R, ('baseline',), sg, [(1, 'begin'), (0, 'begin')], 0),
         (4, 16, 16, I, ('pileup2', 'baseline'), sg, [(1, 'amp'), (0, 4)], 0), (4, 16, 16, I, ('pileup1', 'chi2'), sg, [(1, 'amp'), (0, 'chi2')], 0),
         (5, 10, 0, R, ('pileup1', 'slope', 'baseline'), {}, [(3, 'begin'), (2, 'amp')], 3), (3, 10, 0, N, (), {}, [(0, 'amp')], 0),
         (4, 10, 0, I, ('slope', 'chi2'), sg, [(1, 'end')], 0, True), (4, 10, 0, R, ('baseline',), sg, [(1, 'begin')], 0, True)]
    if big:
        A += [(6, 32, 16, I, ALL, sg, [(0, 'amp'), (1, 4), (2, 'chi2')], 4), (6, 10, 0, R, ALL, {}, [(1, 'amp'), (2, 'begin')], 5),
              (6, 10, 0, R, ALL, {}, [(1, 'amp'), (2, 'begin'), (3, 'end')], 5),
              (5, 10, 0, I, ALL, sg, [(1, 'amp')], 0, True), (4, 10, 0, R, ('pileup1',), sg, [(1, 'amp')], 0, True)]
    for a in A:
        J.append(('auto/%d/%d/%d/%s/%s/%d/%s/%d%s' % (a[:4] + ('+'.join(a[4]), len(a[5]), '+'.join('%d%s' % s for s in a[6]), a[7],
                                                             '/real' if a[8:] else '')),
                  h_auto, dict(zip(('nt', 'n', 'per', 'name', 'on', 'sig', 'sym', 'seed', 'real'), a))))
    for a in [(1, 4, F(1, 2), 1), (2, 3, F(3, 4), 1), (1, 5, N, 2), (1, 4, N, N), (1, 3, F(9, 10), 3)] + \
            ([(2, 5, F(1, 3), 2), (1, 8, N, 3)] if big else []):
        J.append(('muon/%d/%d/%s/%s' % a, h_muon, dict(zip(('nt', 'n', 'thr', 'sat'), a))))
    J.append(('refuse', h_refuse, {}))
    return J
