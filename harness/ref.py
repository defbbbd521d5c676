"""Independent reference formulas used by the harnesses (written from the
definitions, with explicit sums; they share no code with /repo)."""
from fractions import Fraction as F


class RefOF:
    """chi^2(a, t) = sum_f |v_f - a s_f exp(-2 pi i f t)|^2 / J_f * df with the
    two-sided convention v_f = DFT(v)/N/df"""

    def __init__(self, c, v, s, w, fs, coupling='AC', integralnorm=False):
        np = c.np
        self.c = c
        n = len(v)
        self.n, self.fs = n, fs
        self.df = fs / n
        self.freqs = [fs * k / n if k < (n + 1) // 2 else fs * (k - n) / n for k in range(n)]
        self.v = self.dft(v)
        self.s = self.dft(s)
        if integralnorm:
            s0 = self.s[0]
            self.s = [x / s0 for x in self.s]
        self.w0 = w[0]
        self.w = [w[k] for k in range(n)]
        if coupling == 'AC':
            self.w[0] = 0 * w[0]

    def dft(self, x):
        np = self.c.np
        n = self.n
        out = []
        for k in range(n):
            t = 0
            for j in range(n):
                t = t + x[j] * np.exp(self.c.num(F(-2 * ((j * k) % n), n)) * 1j * self.c.pi)
            out.append(t / self.fs)
        return out

    def phase(self, t, k):
        return self.c.np.exp(-2j * self.c.pi * self.freqs[k] * t)

    def norm(self):
        return sum((self.s[k].conjugate() * self.s[k] * self.w[k]).real for k in range(self.n)) * self.df

    def amp(self, t):
        num = sum((self.s[k].conjugate() * self.phase(-t, k) * self.v[k] * self.w[k]).real
                  for k in range(self.n))
        den = sum((self.s[k].conjugate() * self.s[k] * self.w[k]).real for k in range(self.n))
        return num / den

    def resid(self, pulses, base=0):
        """Fourier residual for a list of (amplitude, time) pulses"""
        out = []
        for k in range(self.n):
            r = self.v[k]
            for a, t in pulses:
                r = r - a * self.s[k] * self.phase(t, k)
            if k == 0:
                r = r - base / self.df
            out.append(r)
        return out

    def chi2(self, a, t):
        return self.chi2n([(a, t)])

    def chi2n(self, pulses, base=0, use_dc=False, kmask=None):
        tot = 0
        for k, r in enumerate(self.resid(pulses, base)):
            w = self.w0 if (k == 0 and use_dc) else self.w[k]
            if kmask is not None and not kmask[k]:
                continue
            tot = tot + (r.conjugate() * r).real * w
        return tot * self.df


def pulse(n, k=0):
    """rational pulse templates on the time grid, starting at the centre bin"""
    shapes = [[1, F(1, 2), F(1, 4), F(1, 8), F(1, 16), F(1, 32)],
              [F(1, 2), 1, F(3, 4), F(1, 4), F(1, 8), 0],
              [1, F(2, 3), F(1, 5), F(1, 7), 0, 0]]
    sh = shapes[k % len(shapes)]
    t = [F(0)] * n
    for i, x in enumerate(sh[:max(1, n - n // 2)]):
        t[n // 2 + i] = F(x)
    return t


def delta(n):
    return [F(1)] + [F(0)] * (n - 1)


def weights(n, k=0):
    """inverse PSD values, symmetric in frequency"""
    base = [F(1, 2), 1, F(3, 2), F(1, 3), 2, F(5, 4), 1][k:]
    return [F(base[min(i, n - i) % len(base)]) for i in range(n)]


def flat(n):
    return [F(1)] * n


def bins(n):
    """possible time offsets in bins"""
    return list(range(-(n // 2), n - n // 2))


def allowed(n, nc, wc, outside):
    if nc is None:
        return list(range(n))
    nc = min(nc, n)
    st = n // 2 - nc // 2 + wc
    ins = [i for i in range(n) if st <= i < st + nc]
    return [i for i in range(n) if i not in ins] if outside else ins


def check_search(c, n, fs, ok, pd, amp_at, chi2_at, chi2_of, res, fallback, tag='', scale=1):
    """claims about a search over time bins: res = (amp, t, chi2);
    amp_at(t): best amplitude, chi2_at(t): its chi2, chi2_of(amp, t): explicit"""
    amp, t0, chi2 = res
    good = []
    for b in ok:
        t = (b - n // 2) / fs
        a = amp_at(t)
        if pd == 0 or c.fork(pd * a > 0):
            good.append((b, t, a))
    if not good:
        fa, ft, fc = fallback
        c.eq(tag + 'fallback amplitude', amp, fa)
        c.eq(tag + 'fallback time', t0, ft)
        c.eq(tag + 'fallback chi2', chi2, fc, scale=scale)
        return
    inside = False
    for b, t, a in good:
        if c.fork(abs(t0 * fs - (b - n // 2)) < F(1, 4)):
            inside = True
            c.eq(tag + 'time is on the grid', t0, t)
            c.eq(tag + 'amplitude is the best amplitude at that time', amp, a)
            c.eq(tag + 'chi2 belongs to that amplitude and time', chi2, chi2_of(amp, t), scale=scale)
            break
    c.true(tag + 'time is an allowed time', inside)
    for b, t, a in good:
        c.le(tag + 'chi2 is minimal over the allowed times', chi2, chi2_at(t))


def templ(c, kind, n):
    if kind == 'delta':
        return c.arr(delta(n)), c.arr(flat(n))
    return c.arr(pulse(n, kind)), c.arr(weights(n))


def eq_sumsq(c, name, za, wa):
    """sum of squares of za equals that of wa (equal terms are paired first)"""
    za, wa = list(za), list(wa)
    if c.mode == 'sym':
        from symqet.sym import lift
        for z in list(za):
            for j, w in enumerate(wa):
                if lift(z - w).is_zero() or lift(z + w).is_zero():
                    del wa[j]
                    za = [v for v in za if v is not z]
                    break
    c.eq(name, sum(v * v for v in za), sum(v * v for v in wa))
