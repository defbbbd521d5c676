"""P24: robust statistics and outlier removal."""
import warnings
import numpy
import scipy.optimize
import scipy.stats
from qetpy.cut import _cut as C
from harness.ref import *

warnings.simplefilter('ignore')
numpy.seterr(all='ignore')

BOUNDS = ('removeoutliers: 3-6 points of which 1-3 symbolic; iterstat: 1-6 points, 1-3 symbolic, 1/2 to 3 sigma; itercov: '
          '3-5 points in 2 or 3 dimensions, up to 2 symbolic coordinates')
ASSUMPTIONS = ['the covariance of the points kept by itercov stays invertible (determinant above 1e-6)', 'infinities only at +inf', 'the normal distribution functions are arbitrary positive numbers',
               'scipy fsolve is a recorder']


def data(c, vals, tag='x', lo=-20, hi=20):
    """None: symbolic"""
    return [c.real('%s%d' % (tag, i), lo=lo, hi=hi) if v is None else (v if isinstance(v, float) else c.num(v))
            for i, v in enumerate(vals)]


def mean(v):
    return sum(v) / len(v)


def var(v):
    m = mean(v)
    return sum((u - m) ** 2 for u in v) / len(v)


def isort(c, v):
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            if c.fork(v[j + 1] < v[j]):
                v[j], v[j + 1] = v[j + 1], v[j]
    return v


def med(c, v):
    v = isort(c, v)
    k = len(v)
    return v[k // 2] if k % 2 else (v[k // 2 - 1] + v[k // 2]) / 2


def skewed(c, v, target):
    """skewness above the target"""
    m = mean(v)
    m2, m3 = var(v), sum((u - m) ** 3 for u in v) / len(v)
    if len(v) < 2 or c.fork(m2 == 0):
        return False
    if not target:
        return c.fork(m3 > 0)
    return c.fork(m3 / (m2 * c.np.sqrt(m2)) > target)


def ab(c, v):
    return v if c.fork(v >= 0) else -v


def h_rem(c, vals, target, scale):
    np = c.np
    x = data(c, vals, lo=-20 if len(vals) < 5 else F(1, 4), hi=20 if len(vals) < 5 else 4)
    n = len(x)
    arr = np.array(x)
    keep = arr.copy()
    kw = {} if target is None else dict(skewtarget=target)
    got = C.removeoutliers(arr, **kw)
    c.same('one flag per point', tuple(got.shape), (n,))
    got = [bool(v) for v in got]
    fin = [i for i in range(n) if not isinstance(vals[i], float)]
    c.eq('points unmodified', [arr[i] for i in fin], [keep[i] for i in fin])
    tg = c.num(F(1, 20)) if target is None else target
    kept = list(fin)
    while skewed(c, [x[i] for i in kept], tg):
        m = med(c, [x[i] for i in kept])
        s = isort(c, [x[i] for i in fin])
        lim = m - s[0]
        if len(fin) == n and c.fork(s[-1] - m < lim):
            lim = s[-1] - m
        new = [i for i in kept if c.fork(ab(c, x[i] - m) < lim)]
        if not new or new == kept:
            break
        kept = new
    c.same('while the points kept are skewed only those nearer to their median than the closer extreme stay',
           got, [i in kept for i in range(n)])
    c.true('some points are kept', any(got))
    for i in range(n):
        if i not in fin:
            c.true('infinities are removed', not got[i])
    # (no gaps)
    for i in fin:
        for j in fin:
            for k in fin:
                if got[i] and got[k] and not got[j]:
                    c.true('the points kept are an interval', c.fork(x[j] <= x[i]) or c.fork(x[j] >= x[k]))
    if scale:
        y = np.array([4 * v - 3 if i in fin else v for i, v in enumerate(x)])
        c.same('units and offsets do not matter', [bool(v) for v in C.removeoutliers(y, **kw)], got)
        y = np.array(list(reversed(x)))
        c.same('order does not matter', [bool(v) for v in C.removeoutliers(y, **kw)], got[::-1])


def h_iter(c, vals, cut, prec, scale, rng=(-20, 20)):
    np = c.np
    x = data(c, vals, lo=rng[0], hi=rng[1])
    n = len(x)
    arr = np.array(x)
    keep = arr.copy()
    kw = {}
    if cut is not None:
        kw['cut'] = c.num(cut)
    if prec is not None:
        kw['precision'] = c.num(prec)
    k = c.num(3 if cut is None else cut)
    p = c.num(1000 if prec is None else prec)
    m, s, mask = C.iterstat(arr, **kw)
    c.same('one flag per point', tuple(mask.shape), (n,))
    mask = [bool(v) for v in mask]
    c.eq('points unmodified', arr, keep)
    inn = [x[i] for i in range(n) if mask[i]]
    c.true('some points are kept', len(inn) > 0)
    c.eq('mean of the points kept', m, mean(inn))
    c.eq('variance of the points kept', s * s, var(inn))
    c.le('not negative', 0, s)
    # iteration of the definition
    ml, vl = mean(x), var(x)
    e = np.sqrt(vl) / p
    sl = np.sqrt(vl)
    stable = 0
    fall = False
    while stable < 3:
        kept = [i for i in range(n) if c.fork(ab(c, x[i] - ml) < k * sl)]
        if len(kept) <= 1:
            fall = True
            kept = list(range(n))
            break
        v = [x[i] for i in kept]
        mt, st = mean(v), np.sqrt(var(v))
        if c.fork(ab(c, mt - ml) > e) or c.fork(ab(c, st - sl) > e):
            stable = 0
        else:
            stable += 1
        ml, sl = mt, st
    c.same('points further than cut standard deviations from the mean are cut until nothing changes', mask,
           [i in kept for i in range(n)])
    if not fall:
        for i in range(n):
            d = ab(c, x[i] - m)
            if mask[i]:
                c.le('points kept are within cut standard deviations', d, k * s + (1 + k) * e)
            else:
                c.le('points removed are outside', k * s - (1 + k) * e, d)
    if scale:
        y = np.array([4 * v - 3 for v in x])
        m2, s2, mask2 = C.iterstat(y, **kw)
        c.same('units and offsets do not matter', [bool(v) for v in mask2], mask)
        c.eq('mean with other units', m2, 4 * m - 3)
        c.eq('standard deviation with other units', s2, 4 * s)
        y = np.array(list(reversed(x)))
        c.same('order does not matter', [bool(v) for v in C.iterstat(y, **kw)[2]], mask[::-1])


def fake_norm(c, sym):
    """arbitrary density and distribution values, depending on the distance
    from the centre only"""
    memo = []

    def same(a, b):
        return c.fork((a - b) * (a - b) < F(1, 10 ** 16))

    def get(kind, x, loc, scale):
        u = x - loc
        for kd, a, b, v in memo:
            if kd == kind and same(a, u) and same(b, scale):
                return v
        if kind == 'pdf':
            for kd, a, b, v in memo:
                if kd == kind and same(a, -u) and same(b, scale):
                    memo.append((kind, u, scale, v))
                    return v
            v = c.real('pdf%d' % len(memo), lo=F(1, 10), hi=1)
        else:
            v = c.real('cdf%d' % len(memo), lo=F(1, 10), hi=F(2, 5)) if not any(m[0] == 'cdf' for m in memo) else \
                c.real('cdf%d' % len(memo), lo=F(3, 5), hi=1)
        memo.append((kind, u, scale, v))
        return v

    scipy.stats.norm.pdf = lambda x, loc=0, scale=1: get('pdf', x, loc, scale)
    scipy.stats.norm.cdf = lambda x, loc=0, scale=1: get('cdf', x, loc, scale)
    return get


def h_unb(c, vals, cut, direct):
    """maximum likelihood of a truncated normal distribution"""
    np = c.np
    x = data(c, vals)
    pdf = fake_norm(c, True)
    calls = []
    mu, sd = c.real('mu', lo=-3, hi=3), c.real('sd', lo=F(1, 2), hi=3)

    def fs(f, x0, *a, **k):
        calls.append((f, x0))
        return np.array([mu, sd])
    c.stub(scipy.optimize.fsolve, fs)
    if direct:
        lo, hi = c.num(-2), c.real('hi', lo=2, hi=4)
        o = C._UnbiasedEstimators(np.array(x), lo, hi)
        got = o.mu, o.std
        inn = [v for v in x if c.fork(v >= lo) and c.fork(v <= hi)]
        at = mu, sd
        c.eq('biased mean', o.mu0, mean(inn))
        c.eq('biased standard deviation', o.std0 ** 2, var(inn))
    else:
        kw = {} if cut is None else dict(cut=c.num(cut))
        m, s, mask = C.iterstat(np.array(x), return_unbiased_estimates=True, **kw)
        got = m, s
        m0, s0, mask0 = C.iterstat(np.array(x), **kw)
        c.same('same points are kept', [bool(v) for v in mask], [bool(v) for v in mask0])
        if not calls:
            c.true('biased only if nothing could be cut', all(bool(v) for v in mask))
            c.eq('simple mean and standard deviation', [m, s], [m0, s0])
            return
        k = c.num(3 if cut is None else cut)
        lo, hi = m0 - k * s0, m0 + k * s0
        inn = [v for v, b in zip(x, mask0) if b and c.fork(v >= lo) and c.fork(v <= hi)]
        if len(inn) != sum(bool(b) for b in mask0):
            return
        at = m0, sd             # symmetric bounds
    c.eq('solution of the likelihood equations', list(got), [mu, sd])
    if c.fork((hi - lo) * (hi - lo) < F(1, 10 ** 6)):
        return
    f, x0 = calls[0]
    e1, e2 = f(np.array([at[0], at[1]]))
    n = len(inn)
    z = pdf('cdf', hi, at[0], at[1]) - pdf('cdf', lo, at[0], at[1])
    pl, pu = pdf('pdf', lo, at[0], at[1]), pdf('pdf', hi, at[0], at[1])
    c.eq('mean equation of the truncated normal distribution', e1 * z,
         (sum(inn) - n * at[0]) * z + n * at[1] ** 2 * (pu - pl))
    c.eq('width equation of the truncated normal distribution', e2 * z,
         (sum((v - at[0]) ** 2 for v in inn) - n * at[1] ** 2) * z +
         n * at[1] ** 2 * ((hi - at[0]) * pu - (lo - at[0]) * pl))


def inv(m):
    """small symmetric matrices: determinant and adjugate"""
    n = len(m)
    if n == 1:
        return m[0][0], [[1]]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0], [[m[1][1], -m[0][1]], [-m[1][0], m[0][0]]]

    def minor(i, j):
        r = [[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i]
        return inv(r)[0]
    adj = [[(-1) ** (i + j) * minor(j, i) for j in range(n)] for i in range(n)]
    return sum(m[0][j] * adj[j][0] for j in range(n)), adj


def mom(rows, idx):
    """mean and (unbiased) covariance of the selected columns"""
    d = len(rows)
    n = len(idx)
    mu = [sum(rows[a][i] for i in idx) / n for a in range(d)]
    cov = [[sum((rows[a][i] - mu[a]) * (rows[b][i] - mu[b]) for i in idx) / (n - 1) for b in range(d)]
           for a in range(d)]
    return mu, cov


def h_cov(c, rows, nsig, thr, form, frac=None, maxiter=None):
    np = c.np
    rows = [data(c, v, 'x%d_' % a, lo=-10, hi=10) for a, v in enumerate(rows)]
    d, n = len(rows), len(rows[0])
    kw = {}
    if nsig is not None:
        kw['nsigma'] = c.num(nsig)
    if thr is not None:
        kw['threshold'] = c.num(thr)
    if frac is not None:
        kw['frac_err'] = c.num(frac)
    if maxiter is not None:
        kw['maxiter'] = maxiter
    if form == 'array':
        args = [np.array([[rows[a][i] for a in range(d)] for i in range(n)])]
    else:
        args = [np.array(v) for v in rows]
    keep = [a.copy() for a in args]
    k = c.num(F(11, 4) if nsig is None else nsig)
    t = c.num(3 if thr is None else thr)
    fr = c.num(F(1, 1000) if frac is None else frac)
    lim = d + k * np.sqrt(c.num(2 * d))
    ml, cl = mom(rows, range(n))
    em = [fr * np.sqrt(cl[a][a]) for a in range(d)]
    ec = fr * sum(cl[a][a] for a in range(d))
    stable = it = 0
    while stable < 2 and it <= (15 if maxiter is None else maxiter) + 1:
        det, adj = inv(cl)
        if c.fork(det < F(1, 10 ** 6)):
            return                              # (points on a line)
        new = []
        for i in range(n):
            v = [rows[a][i] - ml[a] for a in range(d)]
            if all(c.fork(ab(c, v[a]) < np.sqrt(cl[a][a]) * t) for a in range(d)) and \
                    c.fork(sum(v[a] * adj[a][b] * v[b] for a in range(d) for b in range(d)) / det < lim):
                new.append(i)
        kept = new
        if len(kept) <= 1:
            kept = list(range(n))
            break
        mt, ct = mom(rows, kept)
        if any(c.fork(ab(c, mt[a] - ml[a]) > em[a]) for a in range(d)) or \
                any(c.fork(ab(c, ct[a][b] - cl[a][b]) > ec) for a in range(d) for b in range(d)):
            stable = 0
        else:
            stable += 1
        ml, cl = mt, ct
        it += 1
    m, cv, mask = C.itercov(*args, **kw)
    for a, b in zip(args, keep):
        c.eq('points unmodified', a, b)
    c.same('one flag per point', tuple(mask.shape), (n,))
    mask = [bool(v) for v in mask]
    idx = [i for i in range(n) if mask[i]]
    c.true('at least two points are kept', len(idx) >= 2)
    mu, cov = mom(rows, idx)
    c.eq('mean of the points kept', m, mu)
    c.eq('covariance of the points kept', cv, cov)
    c.same('points outside of the chi2 limit or the threshold are cut until nothing changes', mask,
           [i in kept for i in range(n)])


def h_refuse(c):
    x = c.reals('x', 5)
    c.raises('one dimension', ValueError, lambda: C.itercov(x))
    c.raises('one dimension as array', ValueError, lambda: C.itercov(c.reals('y', (5, 1))))
    c.raises('different lengths', ValueError, lambda: C.itercov(x, c.reals('z', 4)))


def jobs(tier):
    big = tier == 'thorough'
    N = None
    inf = float('inf')
    J = []
    A = [([0, N, N], None, True), ([0, N, 1, 10], None, False), ([0, 1, N, 3, 30], None, False),
         ([0, 0, 0, N], None, True), ([N, 10, 0, 0, 1, 2, 30, 1], None, False), ([N, 1, inf, 2, 7], None, False),
         ([N, 2, 0, 1], F(1, 2), False), ([3, N, inf, inf], None, True), ([0, N, N, 1], None, False)]
    if big:
        A += [([N, N, N], None, True), ([N, N, N, 0], None, False), ([0, 1, N, 3, N, 20], None, False), ([0, 1, 2, 3, 4, N, 30], None, False),
              ([N, N, inf, 2, 7], None, True)]
    for v, t, s in A:
        J.append(('remove/%s/%s/%s' % (','.join('?' if u is None else str(u) for u in v), t, s), h_rem,
                  dict(vals=v, target=t, scale=s)))
    A = [([N], None, None, True), ([N, N], None, None, True), ([N, N, N], 1, None, False), ([0, 1, N, 2], F(3, 2), None, True),
         ([0, 1, N, 3, 2], F(3, 2), None, False), ([N, 1, N, 3], F(3, 2), 10, False), ([0, 1, 0, 1, N], F(7, 4), None, False),
         ([0, 1, 2, N, 1, 0], 2, None, False), ([N, 1, 0, 2], F(1, 2), None, False)]
    if big:
        A += [([0, 1, N, 3, N], F(3, 2), None, False), ([N, 1, 2, 9, 4, N], 2, 100, False),
              ([0, 1, 0, 1, 1, 0, 1, 0, N, 30], 2, None, False), ([N, N, N, 1], F(5, 4), 5, False)]
    for v, k, p, s in A:
        J.append(('iter/%s/%s/%s/%s' % (','.join('?' if u is None else str(u) for u in v), k, p, s), h_iter,
                  dict(vals=v, cut=k, prec=p, scale=s)))
    for r in ((-20, -4), (6, 12), (12, 20)):
        J.append(('iter/low precision/%d' % r[0], h_iter, dict(vals=[0, 1, 3, 7, 8, N], cut=F(5, 4), prec=2, scale=False,
                                                              rng=r)))
    for v, k in (([N, 1, 2, 0], 2), ([0, 1, N, 1, 2], None), ([N, 1, 0, 1, 5], F(3, 2))):
        J.append(('unbiased/%s/%s' % (','.join('?' if u is None else str(u) for u in v), k), h_unb,
                  dict(vals=v, cut=k, direct=False)))
    J.append(('unbiased/direct', h_unb, dict(vals=[N, 1, 0, -1], cut=None, direct=True)))
    A = [([[0, 1, 2, N], [0, 3, 1, 5]], None, None, 'array'), ([[0, 1, 2, 5], [0, N, 1, 1]], 1, F(3, 2), 'vec'),
         ([[N, 1, 2, 5, 3], [0, 2, 1, 1, 2]], F(1, 2), F(3, 2), 'vec'),
         ([[0, 2, 2, N, 3], [0, 2, 1, 1, 2]], 1, 1, 'array'),
         ([[0, 1, 2, 5], [0, 3, 1, 1], [N, 1, 2, 0]], 1, F(5, 4), 'vec'), ([[N, 1], [0, 2]], None, F(1, 10), 'vec2')]
    if big:
        A += [([[N, 1, 2, 5, 3], [0, N, 1, 1, 2]], F(1, 2), F(3, 2), 'vec'),
              ([[0, 1, 2, 5, 2, N], [0, 3, 1, 1, 7, 2], [1, 1, 2, 0, 2, 3]], 1, F(7, 4), 'array')]
    for r, k, t, f in A:
        if f == 'vec2':
            # a single array of two points is refused or cut like any other: covered by three points
            continue
        J.append(('cov/%s/%s/%s/%s' % ('-'.join(','.join('?' if u is None else str(u) for u in v) for v in r), k, t, f),
                  h_cov, dict(rows=r, nsig=k, thr=t, form=f)))
    J.append(('cov/frac', h_cov, dict(rows=[[0, 1, 2, N], [0, 3, 1, 5]], nsig=1, thr=F(3, 2), form='vec', frac=F(1, 2))))
    J.append(('cov/maxiter', h_cov, dict(rows=[[0, 1, 2, N, 7], [0, 3, 1, 5, 2]], nsig=1, thr=F(3, 2), form='vec',
                                         maxiter=0)))
    J.append(('refuse', h_refuse, {}))
    return J
