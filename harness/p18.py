"""P18: the IBIS class."""
from qetpy.core import _ibis as B
from harness.ref import *
from harness.p17 import steady, line, cells, at, grid, nonzero

BOUNDS = ('1-2 temperatures, 1-2 channels, 3-5 bias points; symbolic measured currents, shunt and parasitic '
          'resistances and errors, bias currents from a fixed rational grid (symbolic for one two-point job); every '
          'form of the parasitic resistance guess, with and without superconducting fit, given offsets as numbers and '
          'arrays')
ASSUMPTIONS = ['scipy curve_fit of a straight line is modelled by its exact weighted least-squares solution',
               'fitted slopes, slope differences and TES currents are not zero']
IB = [F(1, 3), F(3, 4), F(5, 4), F(2), F(3)]
ER = [F(1, 4), F(2), F(3, 2), F(1, 2), F(1)]


SLOPE = F(11, 10)          # curve_fit starts at the line 1 + x and fails if that is exact already


def var(c, name, pos, lo=F(1, 10)):
    """a number that is not zero"""
    if pos:
        return c.real(name, lo=lo, hi=5)
    v = c.real(name, lo=-5, hi=5)
    nonzero(c, v)
    if lo == SLOPE:
        nonzero(c, v - 1)
    return v


def residual(c, name, x, s, ii):
    if len(ii) == 2:
        return {i: 0 for i in ii}
    i, j, k = ii
    r = c.real(name, lo=-5, hi=5)
    return {i: r * s[i] ** 2 * (x[j] - x[k]), j: r * s[j] ** 2 * (x[k] - x[i]), k: r * s[k] ** 2 * (x[i] - x[j])}


def h_ibis(c, sh, ninds, scinds, form, off, pos, conc=False):
    steady(c)
    nt, nc = cells(sh)
    n = sh[-1]
    ib, iba = grid(c, sh, IB, 1)
    er, era = grid(c, sh, ER, 0)
    if conc:
        # (exact numbers in place of the symbols that only scale the errors)
        ie = grid(c, sh, ER, 2)[1]
        rsh, rshe = c.num(F(3, 2)), c.num(F(1, 2))
    else:
        ie = c.reals('ie', sh, lo=0, hi=2)
        rsh, rshe = c.real('rsh', lo=F(1, 10), hi=3), c.real('rshe', lo=0, hi=1)
    if form == 'scalar':
        rp, rpe = c.real('rp', pos=True), c.real('rpe', lo=0)
        R = lambda t, ch: (rp, rpe)
    elif form == 'chan':
        rp, rpe = c.reals('rp', nc, pos=True), c.reals('rpe', nc, lo=0)
        R = lambda t, ch: (rp[ch], rpe[ch])
    elif form == 'temp':
        rp, rpe = c.reals('rp', (nt, nc), pos=True), c.reals('rpe', (nt, nc), lo=0)
        R = lambda t, ch: (rp[t][ch], rpe[t][ch])
    elif form == 'point':
        rp = c.np.ones(sh) * c.real('rp', pos=True)
        rpe = c.np.ones(sh) * c.real('rpe', lo=0)
        R = lambda t, ch: (rp[t][ch][0], rpe[t][ch][0])
    kw = {} if form is None else dict(rp_guess=rp, rp_err_guess=rpe)
    if scinds is not None:
        kw.update(fitsc=True, scinds=list(scinds))
    akw = {}
    if off in ('y', 'both'):
        akw.update(yoff=c.real('yoff'), yoff_err=c.num(F(1, 3)) if conc else c.real('yoffe', lo=0))
    if off in ('x', 'both'):
        akw.update(xoff=c.real('xoff'), xoff_err=c.num(F(1, 5)) if conc else c.real('xoffe', lo=0))
    if off == 'array':
        full = (nt, nc, n)
        akw.update(yoff=c.np.ones(full) * c.real('yoff'), yoff_err=c.np.ones(full) * c.real('yoffe', lo=0),
                   xoff=c.np.ones(full) * c.real('xoff'), xoff_err=c.np.ones(full) * c.real('xoffe', lo=0))
    want = {}
    data = {}
    yv = akw.get('yoff')
    if off == 'array':
        yv = yv[0, 0, 0]
    for t in range(nt):
        for ch in range(nc):
            x, s = ib[t][ch], er[t][ch]
            nm = '%d%d' % (t, ch)
            pickv = lambda v, ii: [v[i] for i in ii]
            y = [None] * n
            # any data are a straight line b + m x plus, for three points, a
            # multiple of the residual that the weighted fit ignores
            mn = var(c, 'mn' + nm, pos, SLOPE)
            if yv is not None and pos:
                bn = yv + var(c, 'I%s%d' % (nm, ninds[0]), True) - mn * x[ninds[0]]
            else:
                bn = c.real('bn' + nm, lo=-5, hi=5)
            rn = residual(c, 'rn' + nm, x, s, ninds)
            for i in ninds:
                y[i] = bn + mn * x[i] + rn[i]
            bn, mn, vbn, vmn = line(pickv(x, ninds), pickv(y, ninds), pickv(s, ninds))
            w = dict(bn=bn, mn=mn)
            w['rfit'] = rsh / mn
            w['vrfit'] = rsh * rsh * vmn / mn ** 4 + (rshe / mn) ** 2
            if scinds is not None:
                i0 = scinds[0]
                D = var(c, 'D' + nm, pos)
                if yv is not None and pos:
                    bs = yv + var(c, 'I%s%d' % (nm, i0), True) - (mn + D) * x[i0]
                elif pos:
                    bs = bn - (min(x) - var(c, 'q' + nm, True)) * D
                else:
                    bs = bn - c.real('q' + nm, lo=-5, hi=5) * D
                rs = residual(c, 'rs' + nm, x, s, scinds)
                for i in scinds:
                    y[i] = bs + (mn + D) * x[i] + rs[i]
                bs, ms, vbs, vms = line(pickv(x, scinds), pickv(y, scinds), pickv(s, scinds))
                D = ms - mn
                if not pos:
                    nonzero(c, ms)
                    nonzero(c, ms - 1)
                w.update(bs=bs, ms=ms)
                w['rp'] = rsh / ms - rsh
                w['vrp'] = rsh * rsh * vms / ms ** 4 + (rshe * (1 / ms - 1)) ** 2
                q = (bn - bs) / D
                w['x0'], w['y0'] = q, mn * q + bn
                w['vx'] = (vbn + vbs) / D ** 2 + q * q * (vmn + vms) / D ** 2
                w['vy'] = (ms / D) ** 2 * vbn + (mn / D) ** 2 * vbs + (q * ms / D) ** 2 * vmn + (q * mn / D) ** 2 * vms
            else:
                if form is None:
                    w['rp'], e = F(5, 1000), 0
                else:
                    w['rp'], e = R(t, ch)
                w['vrp'] = e * e
                w['x0'], w['y0'] = 0, bn
                w['vx'], w['vy'] = 0, vbn
            g = lambda v: v[0, 0, 0] if off == 'array' else v
            if 'yoff' in akw:
                w['y0'], w['vy'] = g(akw['yoff']), g(akw['yoff_err']) ** 2
            if 'xoff' in akw:
                w['x0'], w['vx'] = g(akw['xoff']), g(akw['xoff_err']) ** 2
            for i in range(n):
                if y[i] is None:
                    y[i] = w['y0'] + var(c, 'I%s%d' % (nm, i), pos)
                elif pos:
                    c.assume(y[i] - w['y0'] > F(1, 10))
                else:
                    nonzero(c, y[i] - w['y0'])
            want[t, ch] = w
            data[t, ch] = y
    d = c.np.array([[list(data[t, ch]) for ch in range(nc)] for t in range(nt)]).reshape(sh)
    keep = [v.copy() for v in (d, era, iba, ie)]
    o = B.IBIS(d, era, iba, ie, rsh, rshe, list(ninds), chan_names=['c%d' % i for i in range(nc)], **kw)
    o.analyze(**akw)
    for u, v in zip(keep, (d, era, iba, ie)):
        c.eq('data unmodified', u, v)
    for a in ('ioff', 'ioff_err', 'rfit', 'rfit_err', 'rnorm', 'rnorm_err', 'rp', 'rp_err', 'ibias_off',
              'ibias_off_err'):
        c.same('shape of ' + a, tuple(getattr(o, a).shape), (nt, nc))
    for a in ('ites', 'ites_err', 'r0', 'r0_err', 'ptes', 'ptes_err', 'vb', 'vb_err', 'ibias_true', 'ibias_true_err'):
        c.same('shape of ' + a, tuple(getattr(o, a).shape), (nt, nc, n))
    for t in range(nt):
        for ch in range(nc):
            w = want[t, ch]
            x, y, s = ib[t][ch], at(d, sh, t, ch), er[t][ch]
            e = at(ie, sh, t, ch)
            k = (t, ch)
            c.eq('current offset (crossing of the normal and superconducting lines, or given)', o.ioff[k], w['y0'])
            c.eq('bias offset (crossing, zero without superconducting fit, or given)', o.ibias_off[k], w['x0'])
            c.eq('error of the current offset', o.ioff_err[k] ** 2, w['vy'])
            c.eq('error of the bias offset', o.ibias_off_err[k] ** 2, w['vx'])
            c.eq('total normal resistance is the shunt over the slope', o.rfit[k], w['rfit'])
            c.eq('error of the total resistance', o.rfit_err[k] ** 2, w['vrfit'])
            c.eq('parasitic resistance', o.rp[k], w['rp'])
            c.eq('error of the parasitic resistance', o.rp_err[k] ** 2, w['vrp'])
            c.eq('normal resistance', o.rnorm[k], w['rfit'] - rsh - w['rp'])
            c.eq('error of the normal resistance', o.rnorm_err[k] ** 2, w['vrfit'] + w['vrp'])
            c.eq('normal line', [o.int_n[t, ch, 0], o.slope_n[t, ch, 0]], [w['bn'], w['mn']])
            if scinds is not None:
                c.eq('superconducting line', [o.int_sc[t, ch, 0], o.slope_sc[t, ch, 0]], [w['bs'], w['ms']])
            rl = rsh + w['rp']
            for i in range(n):
                I, b = y[i] - w['y0'], x[i] - w['x0']
                vi = s[i] * s[i] + w['vy']
                vx = e[i] * e[i] + w['vx']
                j = (t, ch, i)
                c.eq('TES current', o.ites[j], I)
                c.eq('error of the TES current', o.ites_err[j] ** 2, vi)
                c.eq('true bias current', o.ibias_true[j], b)
                c.eq('error of the true bias', o.ibias_true_err[j] ** 2, vx)
                c.eq('bias voltage', o.vb[j], b * rsh)
                c.eq('error of the bias voltage', o.vb_err[j] ** 2, (b * rshe) ** 2 + rsh * rsh * vx)
                c.eq('TES resistance from the loop equation', (o.r0[j] + rl) * I, b * rsh)
                c.eq('TES power is the Joule power', o.ptes[j], b * rsh * I - I * I * rl)
                c.eq('error of the TES resistance', o.r0_err[j] ** 2 * I ** 4,
                     rsh * rsh * I * I * vx + (b * rsh) ** 2 * vi + ((b - I) * rshe * I) ** 2 + w['vrp'] * I ** 4)
                c.eq('error of the TES power', o.ptes_err[j] ** 2,
                     (rsh * I) ** 2 * vx + (b * rsh - 2 * rl * I) ** 2 * vi + ((b - I) * I * rshe) ** 2
                     + w['vrp'] * I ** 4)


def h_formula(c):
    """resistance and power of one point, with a general covariance"""
    ib, io, rsh, d, off, rp = [c.real(k, lo=-5, hi=5) for k in ('ib', 'io', 'rsh', 'd', 'off', 'rp')]
    I = d - off
    nonzero(c, I)
    c.eq('resistance', (B.IBIS._rtes(ib, io, rsh, d, off, rp) + rsh + rp) * I, (ib - io) * rsh)
    c.eq('power', B.IBIS._ptes(ib, io, rsh, d, off, rp), I * I * B.IBIS._rtes(ib, io, rsh, d, off, rp))


def h_err(c):
    d = c.reals('i', (1, 2, 3))
    z = c.arr([[F(0)] * 3] * 2).reshape((1, 2, 3))
    o = lambda d, names, **k: (lambda: B.IBIS(d, z, z, z, 1.0, 0.0, [0, 1], chan_names=names, **k))
    c.raises('names must match the channels', ValueError, o(d, ['a']))
    c.raises('superconducting fit needs its points', ValueError, o(d, ['a', 'b'], fitsc=True))
    c.raises('more than three dimensions are refused', ValueError, o(c.reals('q', (1, 1, 1, 2)), ['a']))
    for shape in ((3,), (2, 1), (1, 2, 2), (1, 3)):
        g = c.reals('r%d%d' % (len(shape), sum(shape)), shape, pos=True)
        c.raises('guesses of another shape are refused', ValueError, o(d, ['a', 'b'], rp_guess=g, rp_err_guess=g))


def h_nan(c):
    """padding in the superconducting points is refused, padding elsewhere changes nothing"""
    steady(c)
    d = c.reals('i', (1, 1, 5), lo=-5, hi=5)
    x, s = c.arr(IB).reshape((1, 1, 5)), c.arr(ER).reshape((1, 1, 5))
    z = c.arr([F(1, 2)] * 5).reshape((1, 1, 5))
    bn, mn, D, q = [var(c, k, k != 'bn', SLOPE if k == 'mn' else F(1, 10)) for k in ('bn', 'mn', 'D', 'q')]
    for i in range(2):
        d[0, 0, i] = bn + mn * IB[i]
    for i in range(2, 4):
        d[0, 0, i] = bn - q * D + (mn + D) * IB[i]
    for i in range(4):
        c.assume(d[0, 0, i] - bn - mn * q > F(1, 10))
    d[0, 0, 4] = bn + mn * q + var(c, 'I', True)
    mk = lambda d, sc: B.IBIS(d, s.copy(), x.copy(), z.copy(), 1.0, 0.5, [0, 1], chan_names=['a'], fitsc=True,
                              scinds=sc)
    A = mk(d.copy(), [2, 3])
    A.analyze()
    p = d.copy()
    p[0, 0, 4] = float('nan')
    Q = mk(p, [2, 3])
    Q.analyze()
    for i in range(5):
        for a in ('r0', 'ptes', 'ites', 'r0_err', 'ptes_err'):
            g = getattr(Q, a)[0, 0, i]
            if i == 4 and a != 'x':
                c.true('padding stays NaN', c.isnan(g))
            else:
                c.eq('padding changes nothing else', g, getattr(A, a)[0, 0, i])
    bad = mk(p, [3, 4])
    c.raises('NaN in the superconducting points', ValueError, bad.analyze)


def jobs(tier):
    big = tier == 'thorough'
    J = []
    A = [((3,), (0, 1), None, 'scalar', ''), ((3,), (1, 2), None, None, ''), ((2, 3), (0, 1), None, 'chan', ''),
         ((2, 3), (0, 1), None, 'scalar', ''), ((2, 2, 3), (0, 2), None, 'temp', ''),
         ((2, 1, 3), (0, 1, 2), None, 'point', ''), ((2, 2, 3), (0, 1), None, 'chan', 'both'),
         ((3,), (0, 1), None, 'scalar', 'y'), ((3,), (0, 1), None, 'scalar', 'x'),
         ((4,), (0, 1), (2, 3), None, ''), ((2, 4), (0, 1), (2, 3), 'scalar', ''),
         ((2, 1, 4), (2, 3), (0, 1), None, ''), ((5,), (0, 1), (2, 3, 4), None, ''),
         ((4,), (0, 1), (2, 3), None, 'y'), ((4,), (0, 1), (2, 3), None, 'x'), ((1, 2, 4), (0, 1), (2, 3), None, 'array')]
    if big:
        A += [((5,), (0, 1, 2), (3, 4), None, ''), ((2, 2, 4), (0, 1), (2, 3), None, ''),
              ((2, 2, 4), (0, 1, 2), None, 'temp', 'array'), ((5,), (0, 1, 4), (2, 3), None, 'both')]
    for sh, ni, si, form, off in A:
        pos = len(sh) > 1 or (si is not None and not big)
        J.append(('ibis/%s/%s/%s/%s/%s' % ('x'.join(map(str, sh)), ni, si, form, off), h_ibis,
                  dict(sh=sh, ninds=ni, scinds=si, form=form, off=off, pos=pos,
                           conc=si is not None and (off != '' or len(si) > 2 or len(ni) > 2))))
    J.append(('formula', h_formula, {}))
    J.append(('refused', h_err, {}))
    J.append(('padding', h_nan, {}))
    return J
