"""P23: TES noise model."""
import warnings
import scipy.constants as K
from qetpy.sim import _sim as S
from qetpy.core.didv import _didv as DD
from harness.ref import *
from harness.p19 import model

warnings.simplefilter('ignore')

BOUNDS = ('1-3 positive frequencies, all parameters symbolic (exponents of the thermal and SQUID power laws 1-5); '
          'resolution integrals over up to 5 frequencies')
ASSUMPTIONS = ['resistances, temperatures, currents and time constants are positive; the loop gain is not one',
               'Irwin parameters come from a fit-result object with arbitrary values']
PAR = ['rload', 'r0', 'rshunt', 'beta', 'loopgain', 'inductance', 'tau0', 'G', 'qetbias', 'tc', 'tload', 'tbath',
       'squiddc', 'squidpole']
CONC = dict(rload=F(1, 4), r0=F(2), rshunt=F(1, 5), beta=F(1, 3), loopgain=F(5), inductance=F(1, 8), tau0=F(3, 4),
            G=F(2, 7), qetbias=F(3, 2), tc=F(4, 5), tload=F(9, 10), tbath=F(1, 5), squiddc=F(2, 9), squidpole=F(5, 3))


def build(c, sym, n, lgcb, sn, nf):
    kw = {}
    for k in PAR:
        if k in sym:
            lo, hi = {'loopgain': (F(3, 2), 9), 'tbath': (F(1, 10), F(1, 2)), 'tc': (F(3, 5), 2),
                      'beta': (0, 3)}.get(k, (F(1, 10), 5))
            kw[k] = c.real(k, lo=lo, hi=hi)
        else:
            kw[k] = c.num(CONC[k])
    args = dict(kw)
    if n is not None:
        args['n'] = n
    if lgcb is not None:
        args['lgcb'] = lgcb
    if sn is not None:
        args['squidn'] = sn
    f = c.reals('f', nf, lo=F(1, 10), hi=5) if nf else c.real('f', lo=F(1, 10), hi=5)
    return kw, args, f


def sq(z):
    return z.real ** 2 + z.imag ** 2


def one(x, i, nf):
    return x[i] if nf else x


def h_noise(c, sym, n, lgcb, sn, nf, given):
    kw, args, f = build(c, sym, n, lgcb, sn, nf)
    g = c.real('gf', lo=F(1, 10), hi=5)
    # frequencies of the object or of the call
    o = S.TESnoise(freqs=g if given else f, **args)
    call = (lambda m: getattr(o, m)(f)) if given else (lambda m: getattr(o, m)())
    nn = 5 if n is None else n
    t = kw['tbath'] / kw['tc']
    if lgcb is False:
        # n/(2n+1) (t^(2n+1) - 1)/(t^n - 1)
        ft = nn * sum(t ** i for i in range(2 * nn + 1)) / sum(t ** i for i in range(nn)) / (2 * nn + 1)
    else:
        ft = (1 + t ** (nn + 1)) / 2
    c.eq('suppression of thermal fluctuations', o.f_tfn, ft)
    i0 = kw['qetbias'] * kw['rshunt'] / (kw['r0'] + kw['rload'])
    c.eq('bias current', o.i0, i0)
    l = kw['loopgain']
    p = dict(rsh=kw['rload'], rp=0, L=kw['inductance'], r0=kw['r0'], beta=kw['beta'], l=l, tau0=kw['tau0'])
    R = {k: call(k) for k in ('dIdV', 'dIdP', 's_vload', 's_iload', 's_pload', 's_vtes', 's_ites', 's_ptes', 's_ptfn',
                              's_itfn', 's_isquid', 's_psquid', 's_itot', 's_ptot', 'dIdVnormal', 's_iloadnormal',
                              's_vtesnormal', 's_itesnormal', 's_itotnormal', 'dIdVsc', 's_iloadsc', 's_itotsc')}
    tel = kw['inductance'] / (kw['rload'] + kw['r0'] * (1 + kw['beta']))
    ti = kw['tau0'] / (1 - l)
    for i, v in enumerate(f if nf else [f]):
        r = {k: one(x, i, nf) for k, x in R.items()}
        w = 2j * c.pi * v
        a = 2 * c.pi * v
        z = model(None, p, 2, w)
        k4 = 4 * K.k
        c.eq('dI/dV is the inverse of the two-pole impedance', r['dIdV'] * z, 1 + 0j)
        # Irwin and Hilton
        den = (1 / tel + w) * (1 / ti + w) + l * kw['r0'] * (2 + kw['beta']) / (kw['inductance'] * kw['tau0'])
        c.eq('dI/dP is the power to current response', r['dIdP'] * den * i0 * kw['inductance'] * kw['tau0'], -l + 0j)
        pw = sq(r['dIdP'])
        cu = sq(r['dIdV'])
        c.eq('load voltage noise', r['s_vload'] / k4, kw['tload'] * kw['rload'])
        c.eq('load current noise', r['s_iload'] / k4, kw['tload'] * kw['rload'] * cu)
        c.eq('load power noise', r['s_pload'] / k4 * l * l,
             kw['tload'] * kw['rload'] * i0 ** 2 * (l - 1) ** 2 * (1 + a * a * ti * ti))
        vt = kw['tc'] * kw['r0'] * (1 + kw['beta']) ** 2
        c.eq('TES voltage noise', r['s_vtes'] / k4, vt)
        sp = vt * i0 ** 2 * (1 + a * a * kw['tau0'] ** 2) / l ** 2
        c.eq('TES power noise', r['s_ptes'] / k4, sp)
        c.eq('TES current noise', r['s_ites'] / k4, sp * pw)
        th = kw['tc'] ** 2 * kw['G'] * ft
        c.eq('thermal fluctuation power noise', r['s_ptfn'] / k4, th)
        c.eq('thermal fluctuation current noise', r['s_itfn'] / k4, th * pw)
        squid = (kw['squiddc'] * (1 + (kw['squidpole'] / v) ** (1 if sn is None else sn))) ** 2
        c.eq('SQUID current noise', r['s_isquid'], squid)
        c.eq('SQUID power noise', r['s_psquid'] * pw, squid)
        c.eq('total current noise is the sum of its parts', r['s_itot'] / k4,
             (r['s_iload'] + r['s_ites'] + r['s_itfn'] + r['s_isquid']) / k4)
        c.eq('total power noise is the total current noise referred to power', r['s_ptot'] / k4 * pw, r['s_itot'] / k4)
        zn = kw['rload'] + kw['r0'] + w * kw['inductance']
        c.eq('normal dI/dV', r['dIdVnormal'] * zn, 1 + 0j)
        c.eq('normal load noise', r['s_iloadnormal'] / k4 * sq(zn), kw['tload'] * kw['rload'])
        c.eq('normal TES voltage noise', r['s_vtesnormal'] / k4, kw['tc'] * kw['r0'])
        c.eq('normal TES noise', r['s_itesnormal'] / k4 * sq(zn), kw['tc'] * kw['r0'])
        c.eq('normal total', r['s_itotnormal'], r['s_iloadnormal'] + r['s_itesnormal'] + r['s_isquid'])
        c.eq('normal total in units of the Johnson noise', r['s_itotnormal'] / k4,
             (kw['tload'] * kw['rload'] + kw['tc'] * kw['r0']) / sq(zn) + squid / k4)
        zs = kw['rload'] + w * kw['inductance']
        c.eq('superconducting dI/dV', r['dIdVsc'] * zs, 1 + 0j)
        c.eq('superconducting load noise', r['s_iloadsc'] / k4 * sq(zs), kw['tload'] * kw['rload'])
        c.eq('superconducting total', r['s_itotsc'] / k4, kw['tload'] * kw['rload'] / sq(zs) + squid / k4)


class Fit:
    def __init__(self, res):
        self.res = res

    def fitresult(self, poles):
        return self.res[poles]


def h_load(c, kind, key, nkw, join):
    """noise model of a dIdV fit"""
    ss = {k: c.real(k, lo=F(1, 10), hi=5) for k in ('rsh', 'rp', 'L', 'r0', 'beta', 'l', 'tau0', 'dt')}
    s1 = {k: c.real(k + '1', lo=F(1, 10), hi=5) for k in ('rsh', 'rp', 'L', 'dt')}
    if key == 'params':                     # of a fit with priors
        res = {1: {'params': s1}, 2: {'params': ss}, 3: {}}
    else:
        res = {1: {'params': {'A': 1.0, 'tau2': 2.0}, 'smallsignalparams': s1},
               2: {'params': {'A': 1.0, 'B': 2.0}, 'smallsignalparams': ss}, 3: {}}
    rn = c.real('rnormal', lo=F(1, 100), hi=F(1, 10))
    kw = {k: c.real('k' + k, lo=F(1, 10), hi=5) for k in
          ('G', 'qetbias', 'tc', 'tload', 'tbath', 'squiddc', 'squidpole')} if nkw else {}
    name = ''.join(list(kind)) if join else kind
    if kind == 'normal':
        c.raises('normal noise needs the normal resistance', ValueError,
                 lambda: S.loadfromdidv(Fit(res), noisetype=name, **kw))
        o = S.loadfromdidv(Fit(res), noisetype=name, rnormal=rn, **kw)
    elif kind == 'transition' and not join:
        o = S.loadfromdidv(Fit(res), **kw)
    else:
        o = S.loadfromdidv(Fit(res), noisetype=name, **kw)
    d = dict(G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9, tbath=0.020, squiddc=2.5e-12, squidpole=0.0)
    d.update(kw)
    for k in ('qetbias', 'tc', 'tload', 'tbath', 'squiddc', 'squidpole'):
        c.eq('given ' + k, getattr(o, k) / d[k] if k != 'squidpole' else getattr(o, k), 1 if k != 'squidpole' else d[k])
    p = ss if kind == 'transition' else s1
    c.eq('shunt resistance of the fit', o.rshunt, p['rsh'])
    c.eq('inductance of the fit', o.inductance, p['L'])
    if kind == 'transition':
        c.eq('conductance', o.G / d['G'], 1)
        c.eq('load resistance is shunt plus parasitic', o.rload, p['rsh'] + p['rp'])
        c.eq('Irwin parameters of the two-pole fit', [o.r0, o.beta, o.loopgain, o.tau0],
             [p['r0'], p['beta'], p['l'], p['tau0']])
        r0 = p['r0']
    elif kind == 'normal':
        c.eq('the one-pole fit sees load and normal resistance', o.rload + rn, p['rsh'] + p['rp'])
        c.eq('normal resistance', o.r0, rn)
        r0 = rn
    else:
        c.eq('load resistance is shunt plus parasitic', o.rload, p['rsh'] + p['rp'])
        c.eq('no resistance when superconducting', o.r0, 0)
        r0 = 0
    if kind != 'transition':
        c.eq('no thermal feedback', [o.beta, o.loopgain, o.tau0, o.G], [0, 0, 0, 0])
    c.eq('bias current', o.i0 * (r0 + o.rload) / d['qetbias'], p['rsh'])
    f = c.real('f', lo=F(1, 10), hi=5)
    w = 2j * c.pi * f
    z = p['rsh'] + p['rp'] + w * p['L']
    if kind == 'transition':
        z = model(None, p, 2, w)
        c.assume((p['l'] - 1) ** 2 > F(1, 10))
        y = o.dIdV(f)
    else:
        y = o.dIdVnormal(f) if kind == 'normal' else o.dIdVsc(f)
    c.eq('the admittance is that of the fit', y * z, 1 + 0j)


def h_refuse(c):
    s = {k: c.real(k, pos=True) for k in ('rsh', 'rp', 'L', 'r0', 'beta', 'l', 'tau0')}
    fit = Fit({1: {'params': s}, 2: {'params': s}})
    for bad in ('Normal', 'sc', '', None, 'transition '):
        c.raises('unknown noise types are refused', ValueError, lambda: S.loadfromdidv(fit, noisetype=bad))


def h_res(c, freqs, two):
    """energy resolution of a one-pole pulse"""
    np = c.np
    f = [c.num(v) for v in freqs]
    tau, eff = c.real('tau', lo=F(1, 10), hi=2), c.real('eff', lo=F(1, 10), hi=1)
    sp = [c.real('s%d' % i, lo=F(1, 4), hi=4) for i in range(len(f))]
    # integral of |p|^2 4/S over the positive frequencies
    y = [4 * eff ** 2 / (1 + (2 * c.pi * v * tau) ** 2) / s for v, s in zip(f, sp)]
    tot = sum((f[i + 1] - f[i]) * (y[i + 1] + y[i]) / 2 for i in range(len(f) - 1))
    if two:
        ff = f + [-v for v in reversed(f) if v != 0]
        ss = [s / 2 for s in sp] + [s / 2 for s, v in reversed(list(zip(sp, freqs))) if v]
        if two == 'sorted':
            k = len(f)
            ff, ss = ff[k:] + ff[:k], ss[k:] + ss[:k]
    else:
        ff, ss = f, sp
    fa, sa = np.array(ff), np.array(ss)
    keep = fa.copy(), sa.copy()
    r = S.energy_res_estimate(fa, tau, sa, eff)
    c.eq('resolution is that of the optimum filter', (r * K.e) ** 2 * tot, 1)
    c.le('not negative', 0, r * K.e)
    c.eq('frequencies unmodified', fa, keep[0])
    c.eq('PSD unmodified', sa, keep[1])


def jobs(tier):
    big = tier == 'thorough'
    J = []
    A = [(PAR, None, None, None, 0, False), (PAR[:7], 4, True, 2, 0, True), (PAR[7:], 3, False, 1, 2, False),
         (['loopgain', 'tau0', 'beta'], 1, False, 3, 3, True), (['tc', 'tbath'], 5, False, None, 1, True)]
    if big:
        A += [(PAR, 6, True, 3, 0, True), (PAR, 4, False, 2, 2, False), (PAR, 2, False, 1, 3, True)]
    for sym, n, lgcb, sn, nf, given in A:
        J.append(('noise/%d/%s/%s/%s/%d/%s' % (len(sym), n, lgcb, sn, nf, given), h_noise,
                  dict(sym=sym, n=n, lgcb=lgcb, sn=sn, nf=nf, given=given)))
    for kind in ('transition', 'superconducting', 'normal'):
        for key in ('params', 'smallsignalparams'):
            J.append(('load/%s/%s' % (kind, key), h_load, dict(kind=kind, key=key, nkw=key == 'params',
                                                              join=key != 'params')))
    J.append(('refuse', h_refuse, {}))
    J.append(('res/3', h_res, dict(freqs=[F(0), F(1), F(5, 2)], two='')))
    J.append(('res/2', h_res, dict(freqs=[F(1, 2), F(3)], two='')))
    J.append(('res/two/3', h_res, dict(freqs=[F(0), F(1), F(5, 2)], two='fft')))
    J.append(('res/two/sorted', h_res, dict(freqs=[F(0), F(1), F(2)], two='sorted')))
    if big:
        J.append(('res/5', h_res, dict(freqs=[F(0), F(1, 3), F(1), F(5, 2), F(4)], two='')))
        J.append(('res/two/5', h_res, dict(freqs=[F(0), F(1, 3), F(1), F(5, 2), F(4)], two='fft')))
    return J
