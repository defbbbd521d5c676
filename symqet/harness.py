"""Harness context (one harness body, two interpretations) and job runner.

`SymCtx` runs a harness symbolically and turns its claims into SMT queries;
`NumCtx` runs the same harness body on the unmodified code with ordinary numpy
floats (used to replay counterexamples and to validate the encoding)."""
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import engine as E
from . import poly as P
from .engine import Engine, Unsupported, Infeasible, PathLimit, z3
from .poly import Rat, Poly


class Violation(Exception):
    pass


class Skip(Exception):
    """concrete inputs outside the assumptions"""


# ------------------------------------------------------------------ numeric
class NumCtx:
    mode = 'num'

    def __init__(self, inputs, mods):
        self.inputs = inputs
        self.mods = mods
        self.fails = []
        self.nchecks = 0
        self.values = {}
        self.np = np
        self.tol = 1e-6
        self.stubs = {}

    @property
    def pi(self):
        return math.pi

    def real(self, name, lo=None, hi=None, pos=False):
        if name not in self.inputs:
            # not constrained by the model: any value in range
            v = 1.0
            if lo is not None:
                v = max(v, float(lo))
            if hi is not None:
                v = min(v, float(hi))
            self.inputs[name] = v
        return np.float64(self.inputs[name])

    def integer(self, name, dom):
        return int(round(self.real(name, lo=min(dom), hi=max(dom))))

    ints = {}

    def reals(self, name, shape, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        if name in self.ints:
            out = np.empty(shape, dtype=np.int64)
            for i in np.ndindex(*shape):
                out[i] = self.integer(name + '_' + '_'.join(map(str, i)), self.ints[name])
            return out
        out = np.empty(shape)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + '_' + '_'.join(map(str, i)), **kw)
        return out

    def complexes(self, name, shape, **kw):
        return self.reals(name + 'r', shape, **kw) + 1j * self.reals(name + 'i', shape, **kw)

    def arr(self, x):
        return np.array([[float(v) for v in r] if isinstance(r, (list, tuple)) else float(r) for r in x])

    def carr(self, x):
        return np.array(x)

    def num(self, x):
        return float(x)

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def lazy(self):
        pass

    def fork(self, cond):
        return bool(cond)

    def arb(self, name, **kw):
        return self.real(name, **kw)

    def pick(self, name, opts):
        """a free choice among finitely many configurations"""
        return opts[min(len(opts) - 1, max(0, int(round(self.inputs.get(name, 0)))))]

    def stub(self, real, new):
        self.stubs[id(real)] = new
        from . import patch
        if not any(p[0] is real for p in getattr(self, '_st', [])):
            self._st = getattr(self, '_st', []) + [(real,)]

            def tramp(*a, **k):
                f = self.stubs.get(id(real))
                return (f or real)(*a, **k)
            tramp.__name__ = getattr(real, '__name__', 'stub')
            patch.patch_concrete(self.mods, [(real, tramp)])
            md = sys.modules.get((getattr(real, '__module__', '') or '').rsplit('._', 1)[0])
            if md is None and getattr(np.random, getattr(real, '__name__', ''), None) == real:
                md = np.random
                setattr(md, real.__name__, tramp)
            if md is not None and getattr(md, getattr(real, '__name__', ''), None) is real:
                setattr(md, real.__name__, tramp)

    def _rec(self, name, a, b):
        try:
            self.values.setdefault(name, []).append(
                (np.asarray(a, dtype=complex).ravel().tolist(),
                 np.asarray(b, dtype=complex).ravel().tolist()))
        except Exception:
            pass

    def fail(self, name, detail):
        self.fails.append((name, str(detail)[:400]))

    def eq(self, name, a, b, scale=1.0):
        self.nchecks += 1
        self._rec(name, a, b)
        sa, sb = np.shape(a), np.shape(b)
        try:
            a = np.asarray(a, dtype=complex)
            b = np.asarray(b, dtype=complex)
        except (TypeError, ValueError) as e:
            self.fail(name, 'not numeric: %r vs %r' % (a, b))
            return
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
                if b.shape != sb and a.shape != sa:
                    raise ValueError
            except ValueError:
                self.fail(name, 'shape %s vs %s' % (sa, sb))
                return
        a, b = a.ravel(), b.ravel()
        na, nb = np.isnan(a), np.isnan(b)
        bad = na != nb
        fin = ~(na | nb)
        inf = fin & (np.isinf(a) | np.isinf(b))
        bad |= inf & (a != b)
        fin &= ~inf
        with np.errstate(all='ignore'):
            d = np.abs(a - b)
        sc = scale if scale != 1.0 else (1.0 + np.abs(a) + np.abs(b))
        sc = np.broadcast_to(np.abs(np.asarray(sc, dtype=complex)), d.shape)
        bad |= fin & (d > self.tol * np.where(np.isfinite(sc), sc, 1))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            self.fail(name, 'at %d: got %r expected %r' % (i, a[i], b[i]))

    def le(self, name, a, b, slack=1e-9):
        self.nchecks += 1
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        a, b = np.broadcast_arrays(a, b)
        sc = 1e-7 * (1 + np.abs(a) + np.abs(b))
        bad = ~(a <= b + sc)
        if bad.any():
            i = int(np.flatnonzero(bad.ravel())[0])
            self.fail(name, 'at %d: %r <= %r is false' % (i, a.ravel()[i], b.ravel()[i]))

    def lt(self, name, a, b):
        self.nchecks += 1
        bad = ~(np.asarray(a) < np.asarray(b))
        if np.any(bad):
            self.fail(name, '%r < %r is false' % (a, b))

    def true(self, name, cond):
        self.nchecks += 1
        if not bool(np.all(cond)):
            self.fail(name, 'false')

    def raises(self, name, exc, fn):
        self.nchecks += 1
        try:
            fn()
        except exc:
            return
        self.fail(name, 'did not raise %s' % (exc,))

    def same(self, name, a, b):
        self.nchecks += 1
        if a != b:
            self.fail(name, '%r != %r' % (a, b))

    def isnan(self, x):
        return bool(np.any(np.isnan(x)))


# ------------------------------------------------------------------ symbolic
class SymCtx:
    mode = 'sym'

    def __init__(self, eng, mods, npproxy):
        self.e = eng
        self.mods = mods
        self.np = npproxy
        self.inputs = {}          # name -> Var
        self.cands = []           # (vc name, formula, ids, pc, kind)
        self.inconclusive = []
        self.proved = 0
        self.identities = 0
        self.samples = []
        self.witness = []
        self.stubs = {}
        self.values = {}
        self.failed_names = {}

    @property
    def pi(self):
        from .patch import PI
        return PI()

    def real(self, name, lo=None, hi=None, pos=False):
        from .sym import Sym
        v = self.e.new_var(name, 'input', lo=lo, hi=hi, pos=pos or (lo is not None and lo > 0))
        self.inputs[name] = v
        return Sym(Rat(Poly.var(v.id)))

    arb = real

    def integer(self, name, dom, relax=False):
        """a symbolic integer out of a finite set (relax: decided over the reals of
        the range, which covers the integers; counterexamples are taken at integers)"""
        x = self.real(name, lo=min(dom), hi=max(dom))
        v = self.inputs[name]
        if v.dom is None:
            v.dom = list(dom)
            if relax:
                return x
            if list(dom) == list(range(min(dom), max(dom) + 1)):
                v.cons.append(z3.IsInt(v.z))
            else:
                v.cons.append(z3.Or(*[v.z == d for d in dom]))
        return x

    ints = {}

    def reals(self, name, shape, **kw):
        from .npsym import SymArray, IntSymArray
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        if name in self.ints:
            for i in np.ndindex(*shape):
                out[i] = self.integer(name + '_' + '_'.join(map(str, i)), self.ints[name], relax=True)
            return out.view(IntSymArray)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + '_' + '_'.join(map(str, i)), **kw)
        return out.view(SymArray)

    def complexes(self, name, shape, **kw):
        return self.reals(name + 'r', shape, **kw) + self.reals(name + 'i', shape, **kw) * 1j

    def arr(self, x):
        from .npsym import mk, emap
        from .sym import lift
        return emap(lift, mk(x))
    carr = arr

    def num(self, x):
        from .sym import lift
        return lift(x)

    def assume(self, cond):
        from .sym import SymBool
        from .npsym import SymArray
        if isinstance(cond, SymBool):
            self.e.assume(cond.f, cond.ids)
        elif isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise Infeasible()
        elif isinstance(cond, np.ndarray):
            if not np.all(cond):
                raise Infeasible()
        else:
            self.e.assume(cond, set())

    def lazy(self):
        """keep the outcome of array comparisons undecided until it is needed"""
        self.e.lazy = True

    def fork(self, cond):
        return bool(cond)

    def pick(self, name, opts):
        if len(opts) == 1:
            return opts[0]
        v = self.e.new_var(name, 'pick', lo=0, hi=len(opts) - 1)
        self.inputs[name] = v
        return opts[self.e.choose([v.z == i for i in range(len(opts))], {v.id})]

    def stub(self, real, new):
        from . import patch
        first = id(real) not in self.stubs
        self.stubs[id(real)] = new
        if first:
            def tramp(*a, **k):
                return self.stubs[id(real)](*a, **k)
            tramp.__name__ = getattr(real, '__name__', 'stub')
            old = patch.REPL.get(real)
            patch.REPL.set(real, tramp)
            for m in self.mods:
                for n, v in list(m.__dict__.items()):
                    if v is real or (old is not None and v is old) or \
                            getattr(v, '__wrapped__', None) is real or \
                            (getattr(v, '__name__', None) == real.__name__ and
                             getattr(v, '__qualname__', '').startswith('guarded')):
                        m.__dict__[n] = tramp

    # ---- verification conditions
    def _neg_eq(self, a, b):
        """list of (formula, ids, gapRat) for elements that may differ"""
        from .npsym import mk, _objarr, unwrap
        from .sym import lift, nonfinite, Sym
        try:
            a0, b0 = _objarr(a), _objarr(b)
        except Exception:
            return 'not numeric'
        if a0.shape != b0.shape:
            try:
                x, y = np.broadcast_arrays(a0, b0)
                if x.shape != a0.shape and y.shape != b0.shape:
                    raise ValueError
                a0, b0 = x, y
            except ValueError:
                return 'shape %s vs %s' % (a0.shape, b0.shape)
        out = []
        for i in np.ndindex(a0.shape):
            x, y = a0[i], b0[i]
            if x is None or y is None:
                if x is not y:
                    return 'element %s: %r vs %r' % (i, x, y)
                continue
            nx = not isinstance(x, Sym) and nonfinite(x)
            ny = not isinstance(y, Sym) and nonfinite(y)
            if nx or ny:
                if nx and ny and (x == y or (x != x and y != y)):
                    continue
                return 'element %s: %r vs %r' % (i, x, y)
            x, y = lift(x), lift(y)
            d = x - y
            for part, px, py in ((d.re, x.re, y.re), (d.im, x.im, y.im)):
                if part is None:
                    continue
                if part.is_zero():
                    self.identities += 1
                    if self.left > 0 and not x.is_const():
                        self.left -= 1
                        self._confirm(px, py)
                    continue
                f, ids = self.e.cmp_formula(part, 'eq')
                if f is True:
                    self.identities += 1
                    continue
                if f is False:
                    out.append((z3.BoolVal(True), set(part.vars()), part, i))
                else:
                    out.append((z3.Not(f), ids, part, i))
        return out

    def _confirm(self, x, y):
        """the identity x == y, already decided by the exact normal form, as a
        solver query on the two (cross-multiplied) sides"""
        e = self.e
        if x is None or y is None or x is y:
            return
        if len(x.n.t) + len(y.n.t) > 60 or len(x.d) + len(y.d) > 6 or \
                e.stats.get('confirm_s', 0) > 10:
            return
        if sum(len(q.t) for _, (q, _) in list(x.d.items()) + list(y.d.items())) > 60:
            return
        t = time.time()
        l, r = e.zpoly(x.n), e.zpoly(y.n)
        for _, (q, ex) in y.d.items():
            for _ in range(ex):
                l = l * e.zpoly(q)
        for _, (q, ex) in x.d.items():
            for _ in range(ex):
                r = r * e.zpoly(q)
        s = e._solver(500)
        s.add(*e.background(x.vars() | y.vars()))
        s.add(l != r)
        e.stats['vc_queries'] += 1
        res = e._check(s)
        assert res != z3.sat, 'normal form and solver disagree'
        k = 'identities_solver_confirmed' if res == z3.unsat else 'identities_solver_timeout'
        e.stats[k] = e.stats.get(k, 0) + 1
        e.stats['confirm_s'] = e.stats.get('confirm_s', 0) + time.time() - t

    def eq(self, name, a, b, scale=1.0):
        self.values.setdefault(name, []).append((a, b))
        self.left = 2
        r = self._neg_eq(a, b)
        if isinstance(r, str):
            self._candidate(name, [z3.BoolVal(True)], set(), None, r)
            return
        self._vc(name, r)

    def _vc(self, name, neg):
        """neg: list of (formula, ids, gap, idx); claim: none satisfiable"""
        e = self.e
        e.stats['vcs'] += 1
        if len(self.samples) < 6:
            self.samples.append({'claim': name, 'path': list(e.trail),
                                 'open_after_normalisation': len(neg)})
        if not neg:
            self.proved += 1
            e.stats['vc_trivial'] = e.stats.get('vc_trivial', 0) + 1
            return
        if self.failed_names.get(name, 0) >= 3:
            return                      # enough counterexample candidates
        # one query for the disjunction first
        ids = set()
        for f, i, g, ix in neg:
            ids |= i
        r = self._query([z3.Or(*[f for f, _, _, _ in neg])], ids, e.vc_ms)
        if r == z3.unsat:
            self.proved += 1
            return
        self.failed_names[name] = self.failed_names.get(name, 0) + 1
        for f, i, g, ix in neg:
            rr = r if len(neg) == 1 else self._query([f], i, e.vc_ms // 2)
            if rr != z3.unsat:
                self._candidate(name, [f], i, g, 'element %s' % (ix,), rr)
                return
        self._candidate(name, [z3.Or(*[f for f, _, _, _ in neg])], ids, None, 'some element', r)

    def _query(self, fs, ids, ms):
        e = self.e
        allids = set(ids) | e.pcsyms
        bg = e.background(allids)
        e.stats['vc_queries'] += 1
        s = e._solver(min(ms, 4000))
        s.add(*bg)
        s.add(*e.pc)
        s.add(*fs)
        r = e._check(s)
        if r == z3.unknown:
            e.stats['vc_queries'] += 1
            try:
                s, r = e.nlsat(bg + e.pc + fs, ms)
            except z3.Z3Exception:
                r = z3.unknown
        if r == z3.unknown:
            # drop constraints that share no variable with the claim
            e.stats['vc_queries'] += 1
            s = e._solver(ms)
            s.add(*e.background(ids))
            s.add(*[c for c in e.pc if _zvars(c) & {e.vars[i].name for i in e.closure(ids)}])
            s.add(*fs)
            if e._check(s) == z3.unsat:
                r = z3.unsat
        return r

    def _candidate(self, name, fs, ids, gap, detail, res=None):
        self.cands.append(dict(name=name, fs=fs, ids=set(ids), gap=gap, detail=detail,
                               pc=list(self.e.pc), pcsyms=set(self.e.pcsyms), res=res))

    def le(self, name, a, b, slack=None):
        self._ineq(name, a, b, 'gt')

    def lt(self, name, a, b):
        self._ineq(name, a, b, 'ge')

    def _ineq(self, name, a, b, badop):
        from .npsym import _objarr
        from .sym import cmp, SymBool, nonfinite, Sym, lift
        a0, b0 = np.broadcast_arrays(_objarr(a), _objarr(b))
        neg = []
        for i in np.ndindex(a0.shape):
            x, y = a0[i], b0[i]
            if not isinstance(x, Sym) and nonfinite(x) and x != x or \
                    not isinstance(y, Sym) and nonfinite(y) and y != y:
                neg.append((z3.BoolVal(True), set(), None, i))
                continue
            c = cmp(x, y, badop)
            if isinstance(c, SymBool):
                gap = (lift(x) - lift(y)).re
                neg.append((c.f, c.ids, gap, i))
            elif c:
                neg.append((z3.BoolVal(True), set(), None, i))
        self._vc(name, neg)

    def true(self, name, cond):
        from .sym import SymBool
        from .npsym import SymArray
        if isinstance(cond, SymBool):
            f = cond.f
            if isinstance(f, bool):
                self._vc(name, [] if f else [(z3.BoolVal(True), set(), None, 0)])
            else:
                self._vc(name, [(z3.Not(f), cond.ids, None, 0)])
            return
        ok = bool(np.all(cond))
        self._vc(name, [] if ok else [(z3.BoolVal(True), set(), None, 0)])

    def same(self, name, a, b):
        ok = (a == b)
        self._vc(name, [] if bool(ok) else [(z3.BoolVal(True), set(), None, 0)])

    def raises(self, name, exc, fn):
        try:
            fn()
        except (Unsupported, Infeasible, PathLimit):
            raise
        except exc:
            self._vc(name, [])
            return
        self._vc(name, [(z3.BoolVal(True), set(), None, 0)])

    def isnan(self, x):
        from .npsym import _objarr, _isnan
        return any(_isnan(v) for v in _objarr(x).ravel())

    # ---- models
    def rand_pin(self, v, rng, wide=False):
        lo, hi = v.lo, v.hi
        if v.dom:
            return Fraction(rng.choice(v.dom))
        if v.pos and lo is None:
            lo = Fraction(1, 2)
            hi2 = hi if hi is not None else 4
            if hi is not None and hi <= lo:
                lo = Fraction(hi) / 8
            hi = hi2
        if lo is None and hi is None:
            lo, hi = -4, 4
        elif lo is None:
            lo = hi - 8
        elif hi is None:
            hi = lo + 8
        lo, hi = Fraction(lo), Fraction(hi)
        k = rng.randint(1, 63)
        return lo + (hi - lo) * k / 64

    def models(self, fs, ids, pc, pcsyms, gap=None, tries=8, rng=None, want=3):
        """yield dicts input -> float satisfying pc and fs"""
        e = self.e
        rng = rng or e.rng
        names = list(self.inputs)
        base_ids = set(ids) | pcsyms | {self.inputs[n].id for n in names}
        bg = e.background(base_ids)
        got = 0
        gz = []
        if gap is not None and not gap.is_const():
            from .sym import _zrat
            zg, _ = _zrat(gap)
            gz = [Fraction(1), Fraction(1, 100), None]
        else:
            gz = [None]
        for g in gz:
            for t in range(tries):
                frac = [1.0, 1.0, 1.0, 0.8, 0.8, 0.5, 0.5, 0.2, 0.0][min(t, 8)]
                pins = []
                for n in names:
                    v = self.inputs[n]
                    if v.kind != 'pick' and rng.random() < frac:
                        pins.append(v.z == E._q(self.rand_pin(v, rng)))
                s = e._solver(1500)
                s.add(*bg)
                s.add(*pc)
                s.add(*fs)
                s.add(*pins)
                if g is not None:
                    s.add(z3.Or(zg >= E._q(g), zg <= E._q(-g)))
                e.stats['vc_queries'] += 1
                if e._check(s) == z3.sat:
                    yield self.extract(s.model(), names)
                    got += 1
                    if got >= want:
                        return
        # unpinned, moderate magnitudes, then anything
        for box in (True, False):
            s = e._solver(e.vc_ms)
            s.add(*bg)
            s.add(*pc)
            s.add(*fs)
            if box:
                for n in names:
                    v = self.inputs[n]
                    if v.hi is None:
                        s.add(v.z <= 16)
                    if v.lo is None:
                        s.add(v.z >= (E._q(Fraction(1, 16)) if v.pos else -16))
            if e._check(s) == z3.sat:
                yield self.extract(s.model(), names)
                got += 1
                if got >= want:
                    return

    def extract(self, m, names):
        out = {}
        for n in names:
            z = m.eval(self.inputs[n].z, model_completion=True)
            if z3.is_rational_value(z):
                out[n] = z.numerator_as_long() / z.denominator_as_long()
            elif z3.is_algebraic_value(z):
                a = z.approx(30)
                out[n] = a.numerator_as_long() / a.denominator_as_long()
            else:
                out[n] = 1.0
        return out


def _zvars(f):
    seen, out, todo = set(), set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        todo.extend(t.children())
    return out


# --------------------------------------------------------- numeric helper
def run_numeric(fn, params, inputs, mods):
    c = NumCtx(dict(inputs), mods)
    params = dict(params)
    c.ints = params.pop('ints', {})
    np.random.seed(12345)
    res = dict(status='ok', fails=[], nchecks=0)
    try:
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(c, **params)
    except Skip:
        res['status'] = 'skip'
    except Exception as ex:
        res['status'] = 'exception'
        res['exc'] = '%s: %s' % (type(ex).__name__, str(ex)[:300])
        res['tb'] = traceback.format_exc()[-1500:]
    res['fails'] = c.fails
    res['nchecks'] = c.nchecks
    res['values'] = {k: [[[complex(z).real, complex(z).imag] for z in side] for pair in v for side in pair]
                     for k, v in c.values.items()} if len(c.values) < 400 else {}
    return res


class NumServer:
    """forked before any patching; evaluates harnesses on plain floats"""

    def __init__(self, fn, params, mods):
        self.r1, self.w1 = os.pipe()
        self.r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w1)
                os.close(self.r2)
                fin = os.fdopen(self.r1, 'r')
                fout = os.fdopen(self.w2, 'w')
                for line in fin:
                    inputs = json.loads(line)
                    # every evaluation in its own process: no shared state
                    rr, ww = os.pipe()
                    p = os.fork()
                    if p == 0:
                        signal.alarm(60)
                        r = run_numeric(fn, params, inputs, mods)
                        with os.fdopen(ww, 'w') as f:
                            f.write(json.dumps(r))
                        os._exit(0)
                    os.close(ww)
                    with os.fdopen(rr) as f:
                        txt = f.read()
                    os.waitpid(p, 0)
                    if not txt:
                        txt = json.dumps(dict(status='crash', fails=[], nchecks=0))
                    fout.write(txt + '\n')
                    fout.flush()
            finally:
                os._exit(0)
        os.close(self.r1)
        os.close(self.w2)
        self.fo = os.fdopen(self.w1, 'w')
        self.fi = os.fdopen(self.r2, 'r')

    def ask(self, inputs):
        self.fo.write(json.dumps(inputs) + '\n')
        self.fo.flush()
        return json.loads(self.fi.readline())

    def close(self):
        try:
            self.fo.close()
            self.fi.close()
            os.waitpid(self.pid, 0)
        except Exception:
            pass


def broken(r):
    return bool(r['fails']) or r['status'] == 'exception'


def run_job(fn, params, mods, opts):
    """executed in a forked child: returns a result dict"""
    t0 = time.time()
    num = NumServer(fn, params, mods)
    from . import patch
    from . import npsym  # noqa
    eng = Engine(seed=opts['seed'], vc_ms=opts.get('vc_ms', 15000),
                 feas_ms=opts.get('feas_ms', 1000), max_paths=opts.get('max_paths', 3000),
                 deadline=t0 + opts['budget'])
    E.set_engine(eng)
    patch.install_defaults()
    patch.patch_modules(mods)
    ctx = SymCtx(eng, mods, patch.proxy_for(np))
    params = dict(params)
    ctx.ints = params.pop('ints', {})
    funcs = set()
    _monitor(funcs)
    res = dict(status='ok', violations=[], notes=[], inconclusive=[])
    nwit = opts.get('witnesses', 2)
    state = dict(wit=0, validated=0, mismatch=0)

    def body():
        ctx.values = {}
        ctx.failed_here = False
        n0 = len(ctx.cands)
        try:
            fn(ctx, **params)
        except (Unsupported, Infeasible, PathLimit):
            raise
        except Exception as ex:
            ctx._candidate('no-exception', [z3.BoolVal(True)], set(), None,
                           '%s: %s' % (type(ex).__name__, str(ex)[:300]) + '\n' +
                           traceback.format_exc()[-1800:])
        if len(ctx.cands) > n0:
            _resolve(ctx, num, res, n0)
            if len(res['violations']) >= 3:
                raise _Enough()
        elif state['wit'] < nwit or (eng.stats['paths'] % 37 == 5 and state['wit'] < 3 * nwit):
            state['wit'] += 1
            _witness(ctx, num, res, state)

    try:
        import warnings
        warnings.simplefilter('ignore')
        eng.run_paths(body)
    except _Enough:
        pass
    except Unsupported as ex:
        res['status'] = 'unsupported'
        res['notes'].append('Unsupported: %s\n%s' % (ex, traceback.format_exc()[-1800:]))
    except PathLimit as ex:
        res['status'] = 'limit'
        res['notes'].append('limit: %s' % ex)
    except Exception as ex:
        res['status'] = 'error'
        res['notes'].append(traceback.format_exc()[-2500:])
    if eng.stats['paths'] == 0 and res['status'] == 'ok' and not res['violations']:
        res['status'] = 'vacuous'
    if res['status'] in ('unsupported', 'limit', 'error') and not res['violations']:
        _last_resort(ctx, num, res)
    num.close()
    res.update(stats=eng.stats, proved=ctx.proved, identities=ctx.identities,
               funcs=sorted(funcs), samples=ctx.samples, inputs=len(ctx.inputs),
               validated=state['validated'], mismatch=state['mismatch'],
               side_nonzero=getattr(eng, 'side_nonzero', 0),
               wall=time.time() - t0)
    return res


class _Enough(Exception):
    pass


def _jumps(num, inputs, rng, r):
    """the real code's results jump under a tiny perturbation: the model sits on
    a decision boundary (e.g. an exact tie), where floats may choose either way"""
    base = r.get('values')
    for k in range(4):
        p = {n: v * (1 + rng.uniform(-1, 1) * 1e-9) + rng.uniform(-1, 1) * 1e-11
             for n, v in inputs.items()}
        v = num.ask(p).get('values')
        if set(v or ()) != set(base):
            return True
        for key in base:
            a, b = base[key], v[key]
            if len(a) != len(b):
                return True
            for x, y in zip(a, b):
                if len(x) != len(y):
                    return True
                for (p1, q1), (p2, q2) in zip(x, y):
                    if abs(p1 - p2) + abs(q1 - q2) > 1e-6 * (1 + abs(p1) + abs(q1)):
                        return True
    return False


def _robust(num, inputs, rng):
    """a failure that survives a tiny perturbation of the inputs is not a
    rounding artefact at a decision boundary"""
    for eps in (1e-9, 1e-5):
        for k in range(5):
            p = {n: v * (1 + rng.uniform(-1, 1) * eps) + rng.uniform(-1, 1) * eps / 100
                 for n, v in inputs.items()}
            if broken(num.ask(p)):
                break
        else:
            return False
    return True


def _resolve(ctx, num, res, n0):
    """try to turn counterexample candidates into concrete failing runs"""
    for c in ctx.cands[n0:]:
        if len(res['violations']) >= 3:
            return
        done = False
        last = None
        for inputs in ctx.models(c['fs'], c['ids'], c['pc'], c['pcsyms'], c['gap']):
            r = num.ask(inputs)
            last = (r['status'], r['fails'][:1], r.get('exc'))
            if broken(r) and (_robust(num, inputs, ctx.e.rng) or (
                    c['res'] == z3.sat and any(f[0] == c['name'] for f in r['fails']))):
                res['violations'].append(dict(
                    claim=c['name'], detail=c['detail'], inputs=inputs,
                    replay=dict(status=r['status'], fails=r['fails'][:5], exc=r.get('exc'),
                                tb=r.get('tb'))))
                done = True
                break
        if not done:
            res['inconclusive'].append(dict(claim=c['name'], detail=c['detail'][:2500],
                                            solver=str(c['res']), last=last))


def _witness(ctx, num, res, state):
    """a model of this path, run on the real code: the reachability twin, and a
    cross-check of the encoding"""
    e = ctx.e
    for inputs in ctx.models([], set(), list(e.pc), set(e.pcsyms), None, tries=5, want=1):
        r = num.ask(inputs)
        if broken(r):
            if not _robust(num, inputs, e.rng):
                res['notes'].append('witness fails only at a rounding boundary: %s' % (r['fails'][:1],))
                return
            res['violations'].append(dict(
                claim=(r['fails'][0][0] if r['fails'] else 'no-exception'),
                detail='path witness fails on the real code', inputs=inputs,
                replay=dict(status=r['status'], fails=r['fails'][:5], exc=r.get('exc'),
                            tb=r.get('tb'))))
            return
        if r['status'] == 'ok':
            bad = _compare(ctx, inputs, r)
            if bad and not _on_path(ctx, inputs):
                continue
            if bad and _jumps(num, inputs, e.rng, r):
                state['boundary'] = state.get('boundary', 0) + 1
            elif bad:
                state['mismatch'] += 1
                res['notes'].append('encoding mismatch: %s' % (bad,))
            else:
                state['validated'] += 1
        return


def _on_path(ctx, inputs):
    """is the path condition true when exp/sin/cos (uninterpreted for the
    solver) take their real values?"""
    e = ctx.e
    if not (getattr(e, 'exp_args', None) or getattr(e, 'trig_args', None)):
        return True
    env = AtomEnv(e, inputs)
    byname = {str(v.z): i for i, v in (e.vars.items() if isinstance(e.vars, dict) else enumerate(e.vars))
              if v is not None and getattr(v, 'z', None) is not None}
    for f in e.pc:
        sub = []
        seen, todo = set(), [f]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                try:
                    x = env[byname[str(t)]]
                    sub.append((t, z3.RealVal(Fraction(x))))
                except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError):
                    return False
            else:
                todo.extend(t.children())
        if not z3.is_true(z3.simplify(z3.substitute(f, *sub))):
            return False
    return True


def _compare(ctx, inputs, r):
    """values claimed symbolically vs. values computed by the real code"""
    from .npsym import _objarr
    from .sym import Sym, lift, nonfinite
    env = AtomEnv(ctx.e, inputs)
    for name, pairs in ctx.values.items():
        got = r.get('values', {}).get(name)
        if got is None:
            continue
        flat = [side for p in pairs for side in p]
        if len(flat) != len(got):
            return '%s: number of evaluations' % name
        for side, g in zip(flat, got):
            try:
                b = _objarr(side).ravel()
            except Exception:
                continue
            if len(b) != len(g):
                return '%s: size' % name
            for x, (gr, gi) in zip(b, g):
                if not isinstance(x, Sym):
                    continue
                try:
                    vr = env.rat(x.re)
                    vi = env.rat(x.im) if x.im is not None else 0.0
                except (KeyError, ZeroDivisionError, OverflowError):
                    continue
                if vr != vr or gr != gr:
                    continue
                s = 1 + abs(gr) + abs(gi) + abs(vr) + abs(vi)
                if abs(vr - gr) > 1e-5 * s or abs(vi - gi) > 1e-5 * s:
                    return '%s: encoding %r real code %r' % (name, (vr, vi), (gr, gi))
    return None


class AtomEnv(dict):
    def __init__(self, e, inputs):
        self.e = e
        self.inputs = inputs
        self.kinds = {}
        for key, v in e.atoms.items():
            if isinstance(v, tuple):
                self.kinds[v[0].id] = ('cos', key)
                self.kinds[v[1].id] = ('sin', key)
            else:
                self.kinds[v.id] = (key[0], key)

    def rat(self, r):
        x = float(r.n.eval(self))
        for _, (q, ex) in r.d.items():
            x /= float(q.eval(self)) ** ex
        return x

    def _poly(self, key):
        return Poly(dict(key))

    def __missing__(self, vid):
        v = self.e.vars[vid]
        if v.kind == 'input':
            x = self.inputs[v.name]
        elif v.val is not None:
            x = v.val
        elif vid in self.kinds:
            k, key = self.kinds[vid]
            if k == 'sqrt':
                x = math.sqrt(max(0.0, float(self._poly(key[1]).eval(self))))
            elif k == 'absatom':
                x = abs(float(self._poly(key[1]).eval(self)))
            elif k in ('cos', 'sin'):
                c = self.kinds[vid]
                a = self.rat(self.e.trig_args[self._cosid(vid)])
                x = math.cos(a) if k == 'cos' else math.sin(a)
            elif k == 'exp':
                x = math.exp(self.rat(self.e.exp_args[vid]))
            else:
                raise KeyError(vid)
        else:
            raise KeyError(vid)
        self[vid] = x
        return x

    def _cosid(self, vid):
        key = self.kinds[vid][1]
        return self.e.atoms[key][0].id


def _last_resort(ctx, num, res):
    """the encoding could not follow the code: nothing can be concluded to
    hold, but models of the explored path prefix are still tried on the real
    code"""
    e = ctx.e
    try:
        for inputs in ctx.models([], set(), list(e.pc), set(e.pcsyms), None, tries=8, want=6):
            r = num.ask(inputs)
            if broken(r) and _robust(num, inputs, e.rng):
                res['violations'].append(dict(
                    claim=(r['fails'][0][0] if r['fails'] else 'no-exception'),
                    detail='model of an explored path prefix fails on the real code', inputs=inputs,
                    replay=dict(status=r['status'], fails=r['fails'][:5], exc=r.get('exc'),
                                tb=r.get('tb'))))
                return
    except Exception as ex:
        res['notes'].append('last resort: %r' % (ex,))


def _monitor(funcs):
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'symqet')
    except ValueError:
        return

    def start(code, off):
        fnm = code.co_filename
        if '/qetpy/' in fnm and 'site-packages' not in fnm and not code.co_name.startswith('<'):
            funcs.add(fnm.split('/qetpy/', 1)[1] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
