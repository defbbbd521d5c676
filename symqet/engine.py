"""Path-exploring symbolic executor: variables, path conditions, SMT queries."""
import sys
import time
import random
import math
from fractions import Fraction

_Z3DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:                                      # pragma: no cover
    import os
    import importlib.util as _u
    _spec = _u.spec_from_file_location(
        'z3', os.path.join(_Z3DIR, 'z3', '__init__.py'),
        submodule_search_locations=[os.path.join(_Z3DIR, 'z3')])
    z3 = _u.module_from_spec(_spec)
    sys.modules['z3'] = z3
    _spec.loader.exec_module(z3)

from . import poly as P
from .poly import Poly, Rat


class Unsupported(Exception):
    """The encoding does not cover an operation the code performed."""


class Infeasible(Exception):
    """The current path condition turned out to be unsatisfiable."""


class PathLimit(Exception):
    pass


class Var:
    __slots__ = ("id", "name", "kind", "cons", "z", "deps", "lo", "hi", "pos", "val", "dom")


def n_pc(e):
    return len(e.pc) + 1


def _lin(f):
    todo = [f]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL:
                if sum(1 for y in x.children() if not z3.is_rational_value(y) and not z3.is_int_value(y)) > 1:
                    return False
            elif k in (z3.Z3_OP_POWER, z3.Z3_OP_DIV):
                return False
            todo.extend(x.children())
        else:
            return False
    return True


class Engine:
    """One instance per harness.  State is split in `per harness` (variables,
    statistics) and `per path` (decisions, path condition)."""

    def __init__(self, seed=1, feas_ms=1500, vc_ms=20000, max_paths=4000, deadline=None):
        P.reset_rules()
        self.vars = []
        self.byname = {}
        self.byz = {}
        self.rng = random.Random(seed)
        self.feas_ms = feas_ms
        self.vc_ms = vc_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = dict(paths=0, decisions=0, feas_queries=0, feas_unknown=0,
                          vcs=0, vc_queries=0, solver_s=0.0, infeasible=0)
        self.pending = []
        self.prefix = []
        self.trail = []
        self.pc = []            # z3 constraints of the current path
        self.path_side = set()
        self.pcsyms = set()     # var ids occuring in the path condition
        self.feas_cache = {}
        self.lincache = {}
        self._keep = []
        self.model, self.sat_pc, self.start = None, -1, (None, -1)
        self.z3cache = {}
        self.poscache = {}
        self._pi = None
        self.atoms = {}

    # ---------------------------------------------------------------- vars
    def new_var(self, name, kind='input', cons=None, lo=None, hi=None, pos=False):
        if name in self.byname:
            return self.byname[name]
        v = Var()
        v.id = len(self.vars)
        v.name = name
        v.kind = kind
        v.z = z3.Real(name)
        v.cons = []
        v.deps = set()
        v.lo, v.hi, v.pos = lo, hi, pos
        v.val = v.dom = None
        self.vars.append(v)
        self.byname[name] = v
        self.byz[name] = v
        if lo is not None:
            v.cons.append(v.z >= _q(lo))
        if hi is not None:
            v.cons.append(v.z <= _q(hi))
        if pos:
            v.cons.append(v.z > 0)
        if cons is not None:
            cs, deps = cons(v)
            v.cons += cs
            v.deps |= deps
        return v

    def pi(self):
        if self._pi is None:
            v = self.new_var('PI', 'const')
            v.pos = True
            v.cons.append(v.z > _q(Fraction(314159265358979, 10 ** 14)))
            v.cons.append(v.z < _q(Fraction(314159265358980, 10 ** 14)))
            v.val = math.pi
            self._pi = v
        return self._pi

    def alg(self, name, square, approx, positive=True):
        """algebraic constant with square rule (square: Poly)"""
        if name in self.byname:
            return self.byname[name]
        v = self.new_var(name, 'const')
        P.RULES[v.id] = square
        v.cons.append(v.z * v.z == self.zpoly(square))
        v.cons.append(v.z > 0 if positive else v.z < 0)
        v.deps |= square.vars()
        v.pos = positive
        v.val = approx
        return v

    # ------------------------------------------------------------ z3 terms
    def zpoly(self, p):
        k = p.key()
        r = self.z3cache.get(k)
        if r is not None:
            return r
        terms = []
        for m in sorted(p.t, key=P._lexkey):
            c = p.t[m]
            fs = []
            if c != 1 or not m:
                fs.append(_q(c))
            for v, e in m:
                z = self.vars[v].z
                fs.extend([z] * e)
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        if not terms:
            r = _q(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(*terms)
        self.z3cache[k] = r
        return r

    def closure(self, ids):
        seen = set()
        todo = list(ids)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            todo.extend(self.vars[i].deps)
        return seen

    def background(self, ids):
        out = []
        for i in self.closure(ids):
            out.extend(self.vars[i].cons)
        return out

    # ------------------------------------------------------- sign handling
    def known_pos(self, p):
        """Is polynomial p > 0 under the variable bounds alone? (cheap)"""
        k = p.key()
        r = self.poscache.get(k)
        if r is not None:
            return r
        ok = True
        for m, c in p.t.items():
            if c <= 0:
                ok = False
                break
            for v, e in m:
                if e % 2 and not self.vars[v].pos:
                    ok = False
                    break
            if not ok:
                break
        if ok:
            # all terms are >= 0; need one strictly positive
            ok = any(all(self.vars[v].pos for v, e in m) for m in p.t)
        if not ok:
            ids = p.vars()
            s = self._solver(min(self.feas_ms, 800))
            s.add(*self.background(ids))
            s.add(self.zpoly(p) <= 0)
            ok = self._check(s) == z3.unsat
        self.poscache[k] = ok
        return ok

    def signed_num(self, r):
        """polynomial with the same sign as the rational function r"""
        n = r.n
        for _, (q, e) in r.d.items():
            if e % 2:
                if self.known_pos(q):
                    continue
                if self.known_pos(-q):
                    n = -n
                    continue
                n = n * q
        return n

    def assume_den(self, r):
        """the code divided by these factors: they are assumed non-zero"""
        for k, (q, e) in r.d.items():
            if q.is_const():
                continue
            if k in self.path_side:
                continue
            self.path_side.add(k)
            if self.known_pos(q) or self.known_pos(-q):
                continue
            self.pc.append(self.zpoly(q) != 0)
            self.pcsyms |= q.vars()
            self.side_nonzero = getattr(self, 'side_nonzero', 0) + 1

    def cmp_formula(self, r, op):
        if r.d:
            self.assume_den(r)
        """formula for  r op 0, op in lt le eq; returns (z3 formula, ids) or bool"""
        if r.is_const():
            c = r.const_value()
            return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op], set()
        n = self.signed_num(r)
        if n.is_const():
            c = n.const_value()
            return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op], set()
        ids = r.vars()
        # canonical form: primitive with positive leading coefficient, without
        # positive monomial content
        cont = n.mono_content()
        drop = tuple((v, e) for v, e in cont if self.vars[v].pos)
        if drop:
            n = n.div_mono(drop)
        drop = tuple((v, 2 * ((e - 1) // 2)) for v, e in n.mono_content() if e > 2)
        if drop:
            n = n.div_mono(drop)
        _, lc = n.lead()
        n1 = n.scale(Fraction(1) / lc)
        z = self.zpoly(n1)
        # note: drop only removes factors known to be positive / even powers of
        # a variable, whose vanishing is kept through the remaining power
        if op == 'eq':
            return z == 0, ids
        if lc > 0:
            return (z < 0 if op == 'lt' else z <= 0), ids
        return (z > 0 if op == 'lt' else z >= 0), ids

    # --------------------------------------------------------------- solver
    def _solver(self, ms):
        s = z3.SolverFor('QF_NRA') if False else z3.Solver()
        s.set('timeout', int(ms))
        s.set('random_seed', 7)
        return s

    def _check(self, s):
        t = time.time()
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        return r

    def nlsat(self, fs, ms):
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', int(ms))
        s.add(*fs)
        return s, self._check(s)

    def _linear(self, f):
        """no products of variables in the formula"""
        k = f.get_id()
        r = self.lincache.get(k)
        if r is None:
            r = self.lincache[k] = (_lin(f), f)
        return r[0]

    def _holds(self, m, ids, f):
        """the model of an earlier check satisfies the path condition and f"""
        if m is None:
            return False
        model, mids, ncons, upto = m
        need = self.closure(self.pcsyms | ids)
        if not need <= mids or sum(len(self.vars[i].cons) for i in mids) != ncons:
            return False
        try:
            for g in self.pc[upto:] + [f]:
                if not z3.is_true(model.eval(g, model_completion=True)):
                    return False
        except z3.Z3Exception:
            return False
        return True

    def feasible(self, f, ids):
        """True, False or None (unknown), and a model"""
        key = (tuple(x.get_id() for x in self.pc), f.get_id())
        r = self.feas_cache.get(key)
        if r is not None:
            return r, None
        if self._holds(self.model, ids, f):
            self.stats['feas_by_model'] = self.stats.get('feas_by_model', 0) + 1
            return 'sat', self.model
        allids = self.pcsyms | ids
        bg = self.background(allids)
        if self._linear(f):
            lin = [g for g in bg + self.pc if self._linear(g)]
            if len(lin) < len(bg) + len(self.pc):
                self.stats['feas_queries'] += 1
                s = self._solver(self.feas_ms)
                s.add(*lin)
                s.add(f)
                if self._check(s) == z3.unsat:
                    self.feas_cache[key] = 'unsat'
                    self._keep.append((list(self.pc), f))
                    return 'unsat', None
        self.stats['feas_queries'] += 1
        s = self._solver(self.feas_ms)
        s.add(*bg)
        s.add(*self.pc)
        s.add(f)
        res = self._check(s)
        if res == z3.unknown:
            self.stats['feas_unknown'] += 1
        r = self.feas_cache[key] = str(res)
        self._keep.append((list(self.pc), f))     # keep ids alive
        if r == 'sat':
            mids = self.closure(allids)
            return r, (s.model(), mids, sum(len(self.vars[i].cons) for i in mids), len(self.pc))
        return r, None

    # ------------------------------------------------------------ branching
    def decide(self, f, ids):
        """branch on z3 formula f; returns a python bool"""
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time budget exhausted')
        i = self.choose([f, z3.Not(f)], ids)
        return i == 0

    def choose(self, fs, ids):
        """n-way branch over formulas that together cover everything"""
        self.stats['decisions'] += 1
        ids = set(ids)
        n = len(self.trail)
        if n < len(self.prefix):
            k = self.prefix[n]
            if n == len(self.prefix) - 1:
                self.model, self.sat_pc = self.start
        else:
            opts, mods = [], {}
            known = self.sat_pc == len(self.pc)   # the path condition is satisfiable
            for i, f in enumerate(fs):
                if known and i == len(fs) - 1 and not opts:
                    # the options cover everything
                    r, m = 'sat', None
                else:
                    r, m = self.feasible(f, ids)
                if r != 'unsat':
                    opts.append(i)
                    mods[i] = (m, n_pc(self) if r == 'sat' else -1)
            if not opts:
                raise Infeasible()
            k = opts[0]
            for o in reversed(opts[1:]):
                self.pending.append((list(self.trail) + [o], mods[o]))
            if mods[k][0] is None and self.model is not None and k == len(fs) - 1 and \
                    self._holds(self.model, ids, fs[k]):
                mods[k] = (self.model, mods[k][1])
            self.model, self.sat_pc = mods[k]
        self.trail.append(k)
        self.pc.append(fs[k])
        self.pcsyms |= ids
        return k

    def assume(self, f, ids):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        self.pc.append(f)
        self.pcsyms |= set(ids)

    def run_paths(self, fn, on_path=None):
        self.pending = [([], (None, -1))]
        while self.pending:
            if self.stats['paths'] >= self.max_paths:
                raise PathLimit('more than %d paths' % self.max_paths)
            self.prefix, self.start = self.pending.pop()
            self.model, self.sat_pc = None, -1
            self.trail = []
            self.pc = []
            self.pcsyms = set()
            self.path_side = set()
            self.fresh_n = 0
            try:
                fn()
                self.stats['paths'] += 1
            except Infeasible:
                self.stats['infeasible'] += 1

    # ---------------------------------------------------------------- atoms
    def fresh(self, name, **kw):
        self.fresh_n = getattr(self, 'fresh_n', 0) + 1
        return self.new_var('%s!%d' % (name, self.fresh_n), kind='stub', **kw)


def _q(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    if isinstance(c, Fraction):
        return z3.Q(c.numerator, c.denominator)
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator)


ENG = None


def set_engine(e):
    global ENG
    ENG = e


def eng():
    return ENG
