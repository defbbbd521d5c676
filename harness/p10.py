"""P10: optimum filter with several signal/background templates."""
from qetpy.core import _of_nsmb as M
from harness.ref import *

BOUNDS = ('trace lengths 4 and 5/6 (impulse-like), 1 signal and 1-2 background templates, rational templates '
          'and symmetric rational PSD, symbolic trace and sample rate; several delay windows including '
          'negative and too large indices; polarity constraints -1/0/1 for every template chosen '
          'symbolically; TTL template builder for 7 parameter sets with symbolic template samples')
ASSUMPTIONS = ['no fitted amplitude is exactly zero', 'templates are linearly independent']

SIG = {3: [1, F(1, 2), 0], 4: [1, F(1, 2), F(1, 4), 0], 5: [1, F(1, 2), 0, 0, 0], 6: [1, F(1, 2), F(1, 4), 0, 0, 0]}


def backs(n, nb, kind):
    dc = [F(1)] * n
    if nb == 1:
        return [dc] if kind == 0 else [[F(j, n) for j in range(n)]]
    return [[F(j, n) for j in range(n)], dc] if kind == 0 else [[F((2 * j) % n, n) for j in range(n)], dc]


class Ref:
    def __init__(self, c, v, s, bs, psd, fs):
        n = self.n = len(v)
        self.c, self.fs = c, fs
        dn = fs / n
        self.J = [psd[k] * dn for k in range(n)]
        self.J[0] = self.J[1]
        self.p = self.dft(v)
        self.v = v
        self.s = self.dft(s)
        self.b = [self.dft(b) for b in bs]
        self.st, self.bt = s, bs
        self.W = [1 / j for j in self.J]

    def dft(self, x):
        np, n = self.c.np, self.n
        return [sum(x[j] * np.exp(self.c.num(F(-2 * ((j * k) % n), n)) * 1j * self.c.pi) for j in range(n)) / n
                for k in range(n)]

    def cols(self, d, mask=None, sig=True):
        """frequency-domain templates, signal delayed circularly by d bins"""
        n = self.n
        out = [self.dft([self.st[(j - d) % n] for j in range(n)])] if sig else []
        out += self.b
        return [x for i, x in enumerate(out) if mask is None or mask[i]]

    def dot(self, x, y):
        return sum((x[k].conjugate() * y[k]).real * self.W[k] for k in range(self.n))

    def normal(self, cols):
        return [[self.dot(x, y) for y in cols] for x in cols], [self.dot(x, self.p) for x in cols]

    def chi0(self):
        return self.dot(self.p, self.p)

    def best(self, cols):
        """Cramer's rule: amplitudes, minimal chi2"""
        G, q = self.normal(cols)
        if not cols:
            return [], self.chi0()
        D = det(G)
        a = []
        for i in range(len(q)):
            a.append(det([[q[r] if k == i else G[r][k] for k in range(len(q))] for r in range(len(q))]) / D)
        return a, self.chi0() - sum(x * y for x, y in zip(a, q))

    def chi2(self, cols, amps, upto=None):
        tot = 0
        for k in range(self.n if upto is None else min(upto, self.n)):
            r = self.p[k]
            for a, x in zip(amps, cols):
                r = r - a * x[k]
            tot = tot + (r.conjugate() * r).real * self.W[k]
        return tot

    def resid(self, d, amps):
        n = self.n
        return [self.v[j] - amps[0] * self.st[(j - d) % n] - sum(a * b[j] for a, b in zip(amps[1:], self.bt))
                for j in range(n)]


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def setup(c, n, nb, kind, fsym=True):
    v = c.reals('v', n)
    fs = c.real('fs', lo=F(1, 4), hi=4) if fsym else c.num(2)
    s = c.arr(SIG[n])
    bs = [c.arr(b) for b in backs(n, nb, kind)]
    psd = 1 / c.arr(weights(n))
    psd0 = psd.copy()
    B = c.np.array(bs).T
    st = M.of_nsmb_setup(s, B, psd, fs)
    c.eq('setup leaves the PSD unmodified', psd, psd0)
    return v, fs, st, Ref(c, v, s, bs, psd0, fs)


def window(c, n, win):
    import numpy as rn
    return rn.array([win])


def norm(n, win):
    return sorted({i % n for i in win})


WINS = {3: [[0, 1, 2], [1], [-1, 0], [2, 3]], 4: [[0, 1, 2, 3], [1, 2], [-1, 0], [2, 5, 3], [3], [0]],
        5: [[0, 1, 2, 3, 4], [3, -4], [6, 2]], 6: [[0, 1, 2, 3, 4, 5], [3, -4], [7, 3]]}


def at(c, t, fs, n, ok):
    for d in ok:
        e = d if d <= n / 2 else d - n
        if c.fork(abs(t * fs - e) < F(1, 4)):
            return d, e
    return None, None


def h_free(c, n, nb, kind, wins):
    v, fs, st, R = setup(c, n, nb, kind)
    (J, phi, Pfs, P, sbf, sbt, iB, B, ns, nb_, bc, lf) = st
    c.same('template counts', (ns, nb_), (1, nb))
    win = c.pick('window', wins)
    lf = c.pick('lfindex', [1, 2, 500])
    iP = M.of_nsmb_getiP(P)
    a, t, chi2, clf, res = M.of_nsmb(v, phi, sbf.T, sbt, iP, J.T, fs, [window(c, n, win)], ns, nb, bc, lf)
    t = t[0] if getattr(t, 'shape', ()) else t
    ok = norm(n, win)
    d, e = at(c, t, fs, n, ok)
    c.true('delay is in the window', d is not None)
    if d is None:
        return
    sc = 1 + R.chi0()
    c.eq('delay is on the grid', t * fs, e)
    cols = R.cols(d)
    ra, rc = R.best(cols)
    c.eq('amplitudes are the weighted least-squares amplitudes', a, ra, scale=1 + sum(abs(x) for x in ra))
    c.eq('chi2 belongs to the amplitudes', chi2, R.chi2(cols, a), scale=sc)
    c.eq('low-frequency chi2 is the partial sum', clf, [R.chi2(cols, a, lf)], scale=sc)
    c.eq('residual is trace minus fit', res, [R.resid(d, a)], scale=sc + sum(abs(x) for x in ra))
    for o in ok:
        c.le('chi2 is minimal over the window', chi2, R.best(R.cols(o))[1])


def h_con(c, n, nb, kind, wins, cons, extra=None):
    c.lazy()
    v, fs, st, R = setup(c, n, nb, kind, fsym=False)
    (J, phi, Pfs, P, sbf, sbt, iB, B, ns, nb_, bc, lf) = st
    win = c.pick('window', wins)
    lf = 500 if extra else c.pick('lfindex', [2, 500])
    con = c.pick('constraint', cons)
    best = [R.best(R.cols(d)) for d in range(n)]
    for a, x in best:
        for y in a:
            c.assume(y * y > F(1, 10 ** 8))
    import numpy as rn
    sp, bp = (None, None) if con is None else (rn.array(con[:1]), rn.array(con[1:]))
    (a, t, chi2, clf, res, aw, cw, tw, ai, ti, ci, awi, cwi, twi) = M.of_nsmb_con(
        v, phi, Pfs, P, sbf.T, sbt, J.T, fs, [window(c, n, win)] + ([rn.array(extra)] if extra else []),
        ns, nb, bc, lf, bkgpolarityconstraint=bp, sigpolarityconstraint=sp)
    sc = 1 + R.chi0()
    if extra is not None:
        return h_extra(c, R, n, fs, best, extra, [x[0] for x in (tw, cw, aw[0], twi, cwi, awi[0])], sc)
    t = t[0] if getattr(t, 'shape', ()) else t
    ok = norm(n, win)
    d, e = at(c, t, fs, n, ok)
    c.true('delay is in the window', d is not None)
    if d is None:
        return
    c.eq('delay is on the grid', t * fs, e)
    cols = R.cols(d)
    ra, rc = best[d]
    c.eq('amplitudes are the weighted least-squares amplitudes', a, ra, scale=1 + sum(abs(x) for x in ra))
    c.eq('chi2 belongs to the amplitudes', chi2, [R.chi2(cols, a)], scale=sc)
    c.eq('low-frequency chi2 is the partial sum', clf, [R.chi2(cols, a, lf)], scale=sc)
    c.eq('residual is trace minus fit', res, [R.resid(d, a)], scale=sc + sum(abs(x) for x in ra))
    for o in ok:
        c.le('chi2 is minimal over the window', rc, best[o][1])
    if len(ok) < n:
        return
    # interpolated values: parabola through the circular neighbours
    xs = [best[(d + k) % n][1] for k in (-1, 0, 1)]
    ys = [best[(d + k) % n][0][0] for k in (-1, 0, 1)]
    interp(c, xs, ys, e, fs, ti, ci, ai, sc, 'main window: ', n)


def h_extra(c, R, n, fs, best, w, got, sc):
    tw, cw, aw, twi, cwi, awi = got
    hit = None
    for i, j in enumerate(w):
        if c.fork(abs(tw * fs - j) < F(1, 4)):
            hit = i
            break
    c.true('extra window: time is in the window', hit is not None)
    if hit is None:
        return
    j = w[hit]
    o = (j - n // 2) % n
    c.eq('extra window: time on the grid', tw * fs, j)
    c.eq('extra window: chi2 and amplitude of that time', [cw, aw], [best[o][1], best[o][0][0]],
         scale=sc + abs(best[o][0][0]))
    for i in w:
        c.le('extra window: chi2 is minimal', best[o][1], best[(i - n // 2) % n][1])
    if hit in (0, len(w) - 1):
        c.eq('extra window: no interpolation at its edge', [twi, cwi, awi], [tw, cw, aw])
    else:
        xs = [best[(j + q - n // 2) % n][1] for q in (-1, 0, 1)]
        ys = [best[(j + q - n // 2) % n][0][0] for q in (-1, 0, 1)]
        interp(c, xs, ys, j, fs, twi, cwi, awi, sc, 'extra window: ')


def interp(c, xs, ys, e, fs, t, chi, amp, sc, tag, n=None):
    curv = xs[2] - 2 * xs[1] + xs[0]
    c.assume(curv * curv > F(1, 10 ** 6))
    x = (xs[0] - xs[2]) / (2 * curv)
    t = t[0] if getattr(t, 'shape', ()) else t
    want = e + x
    if n is not None:
        # times beyond half the trace are reported as negative times
        if c.fork(want > F(n, 2)):
            want = want - n
        elif c.fork(want <= -F(n, 2)) and c.fork(t * fs > 0):
            want = want + n

    def par(y):
        return y[1] + x * (y[2] - y[0]) / 2 + x * x * (y[2] - 2 * y[1] + y[0]) / 2
    c.eq(tag + 'interpolated time is the vertex (up to the trace length)', t * fs, want, scale=1 + abs(x))
    c.eq(tag + 'interpolated chi2', chi, par(xs), scale=sc + abs(par(xs)))
    c.eq(tag + 'interpolated amplitude', amp, par(ys), scale=sc + abs(par(ys)))


def h_polar(c, n, nb, kind, cons, delays):
    """what holds for any polarity constraint and any trace"""
    c.lazy()
    v, fs, st, R = setup(c, n, nb, kind, fsym=False)
    (J, phi, Pfs, P, sbf, sbt, iB, B, ns, nb_, bc, lf) = st
    con = c.pick('constraint', cons)
    d = c.pick('delay', delays)
    a0, x0 = R.best(R.cols(d))
    for y in a0:
        c.assume(y * y > F(1, 10 ** 8))
    r = M.of_nsmb_con(v, phi, Pfs, P, sbf.T, sbt, J.T, fs, [window(c, n, [d])], ns, nb, bc, 500,
                      bkgpolarityconstraint=c.np.array(con[1:]), sigpolarityconstraint=c.np.array(con[:1]))
    a, t, chi2, res = r[0], r[1], r[2], r[4]
    cols = R.cols(d)
    sc = 1 + R.chi0()
    c.eq('constrained: chi2 belongs to the amplitudes', chi2, [R.chi2(cols, a)], scale=sc)
    c.eq('constrained: residual is trace minus fit', res, [R.resid(d, a)], scale=sc)
    if nb == 1:
        for y, k in zip(a, con):
            if k:
                c.le('constrained: polarity is respected', 0, y * k)
        # Karush-Kuhn-Tucker: optimal over all allowed amplitudes
        G, q = R.normal(cols)
        for i, k in enumerate(con):
            g = q[i] - sum(G[i][j] * a[j] for j in range(2))
            if k == 0:
                c.eq('constrained: free amplitudes are optimal', g, 0, scale=1 + abs(q[i]))
            else:
                c.le('constrained: no allowed amplitude is better', g * k, 0)
                c.eq('constrained: complementary slackness', g * a[i], 0, scale=1 + abs(q[i]) * (1 + abs(a[i])))


def h_back(c, n, nb, kind, cons):
    v, fs, st, R = setup(c, n, nb, kind)
    (J, phi, Pfs, P, sbf, sbt, iB, B, ns, nb_, bc, lf) = st
    con = c.pick('constraint', cons)
    cols = R.cols(0, sig=False)
    a0, x0 = R.best(cols)
    for y in a0:
        c.assume(y * y > F(1, 10 ** 8))
    lf = c.pick('lfindex', [1, 2, 500])
    kw = {} if con is None else dict(bkgpolarityconstraint=c.np.array(con))
    a, chi2, clf = M.of_mb(v, phi, sbf.T, sbt, iB, B, J.T, fs, ns, nb, lf, **kw)
    a = [a] if nb == 1 else a
    sc = 1 + R.chi0()
    c.eq('background: chi2 belongs to the amplitudes', chi2, [R.chi2(cols, a)], scale=sc)
    c.eq('background: low-frequency chi2', clf, [R.chi2(cols, a, lf)], scale=sc)
    ok = all(k == 0 or c.fork(y * k > 0) for y, k in zip(a0, con or [0] * nb))
    if ok:
        c.eq('background: amplitudes are the weighted least-squares amplitudes', a, a0,
             scale=1 + sum(abs(x) for x in a0))
    elif nb == 1:
        c.eq('background: a disallowed single amplitude is zero', a[0], 0)
    c.le('background: never better than the unconstrained fit', x0, chi2)


def h_slope(c, ns):
    n = c.pick('n', ns)
    t, sh = M.get_slope_dc_template_nsmb(n)
    c.same('shape', (tuple(t.shape), tuple(sh.shape)), ((n, 2), (2,)))
    c.eq('slope and constant', t, [[F(j, n), 1] for j in range(n)])
    c.true('no shifts', all(c.isnan(x) for x in sh))


TTL = [(12, 12, 3, 1), (12, 12, 3, 0), (10, 10, F(5, 2), 0), (9, 3, F(2, 3), 0), (15, 5, F(4, 5), 1), (8, 4, 1, 0), (7, 2, F(3, 5), 0)]


def h_ttl(c, i):
    n, fs, rate, notch = TTL[i]
    s = c.reals('s', n)
    cp = c.pick('constrain', [False, True])
    pp = c.pick('positive', [False, True])
    per = F(fs) / F(rate)
    nt = int(F(n) / per)
    t, sh, pol, win = M.maketemplate_ttlfit_nsmb(s, c.num(F(fs)), c.num(F(rate)), lgcconstrainpolarity=cp,
                                                 lgcpositivepolarity=pp, notch_window_size=notch)
    first = int(-(F(nt) / 2) * per)
    shifts = [round(per * k) for k in range(nt)]
    c.same('one template per trigger plus slope and constant', tuple(t.shape), (n, nt + 2))
    f = [s[(j - first) % n] for j in range(n)]
    for k, d in enumerate(shifts):
        c.eq('trigger template is the delayed pulse', t[:, k], [f[j - d] if j >= d else 0 for j in range(n)])
    c.eq('slope and constant templates', t[:, nt:], [[F(j, n), 1] for j in range(n)])
    c.eq('recorded shifts', sh, shifts + [0, 0])
    c.eq('polarity constraint', pol, [(1 if pp else -1) if cp else 0] * nt + [0, 0])
    bad = {(d + q) % n for d in shifts for q in range(-notch, notch + 1)}
    c.same('search window excludes the triggers', [int(x) for x in win[0].ravel()],
           [j for j in range(n) if j not in bad])
    c.same('window shape', (len(win), tuple(win[0].shape)), (1, (1, n - len(bad))))


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for n, nb, kind in ((3, 1, 0), (4, 1, 1), (4, 2, 0), (4, 2, 1), (6, 2, 0)):
        for i, w in enumerate(WINS[n]):
            if big or n < 6 or len(w) < 6:
                J.append(('free/%d/%d/%d/%d' % (n, nb, kind, i), h_free, dict(n=n, nb=nb, kind=kind, wins=[w])))
    for n, nb, kind in ((3, 1, 0), (4, 1, 1), (4, 2, 0)):
        for i, w in enumerate(WINS[n]):
            if max(w) < n and (big or n == 3 or len(w) <= 3 - nb):
                J.append(('con/%d/%d/%d/%d' % (n, nb, kind, i), h_con,
                          dict(n=n, nb=nb, kind=kind, wins=[w], cons=[None])))
        for i, w in enumerate(([0, 1, 2], [1, 2], list(range(n)))[:n - 1]):
            if big or n == 3 or len(w) == 2:
                J.append(('extra/%d/%d/%d/%d' % (n, nb, kind, i), h_con,
                          dict(n=n, nb=nb, kind=kind, wins=[[0]], cons=[None], extra=w)))
    C = (-1, 0, 1)
    for x in C:
        for y in C:
            ds = [0, 1, 2] if big else [(x + y) % 3]
            J.append(('polar/3/1/%d/%d' % (x, y), h_polar, dict(n=3, nb=1, kind=0, cons=[[x, y]], delays=ds)))
            if big:
                J.append(('polar/4/1/%d/%d' % (x, y), h_polar,
                          dict(n=4, nb=1, kind=1, cons=[[x, y]], delays=[(x + 2 * y) % 4])))
    if big:
        for x in [[1, 0, 0], [0, 1, 0]]:
            J.append(('polar/4/2/%s' % x, h_polar, dict(n=4, nb=2, kind=0, cons=[x], delays=[1])))
    for n, nb, kind in ((3, 1, 0), (4, 1, 1), (4, 2, 0), (4, 2, 1), (6, 2, 0)):
        cons = [None] + [[x] for x in C] if nb == 1 else [None] + [[x, y] for x in C for y in C]
        J.append(('back/%d/%d/%d' % (n, nb, kind), h_back, dict(n=n, nb=nb, kind=kind, cons=cons)))
    for k in range(0, 120 if big else 60, 10):
        J.append(('slope/%d' % k, h_slope, dict(ns=list(range(max(k, 1), k + 10)))))
    for i in range(len(TTL)):
        J.append(('ttl/%d' % i, h_ttl, dict(i=i)))
    return J


INTS = [(r'back/.*', 'v')]
