#!/opt/venv/bin/python
"""developer helper: where one harness forks and spends its time.  prof.py P10 con/3/1/0/1 [tier]"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import run
import collections
import time
import traceback
import symqet.engine as E
from symqet import harness as H
prop, name = sys.argv[1:3]
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
mods = run.load()
m, jobs = run.collect(prop, tier)
DEEP = '-d' in sys.argv
C, T, K = collections.Counter(), collections.Counter(), collections.Counter()


def where():
    st = [f for f in traceback.extract_stack() if '/repo/' in f.filename or '/harness/p' in f.filename or DEEP]
    return ' | '.join('%s:%d' % (f.name, f.lineno) for f in (st[-9:-1] if DEEP else st[-2:]))


old, oldc = E.Engine.choose, E.Engine._check


def choose(self, fs, ids):
    rep, p = len(self.trail) < len(self.prefix), len(self.pending)
    r = old(self, fs, ids)
    if not rep and len(self.pending) > p:
        C[where()] += 1
    return r


def check(self, s):
    t = time.time()
    r = oldc(self, s)
    k = where()
    T[k] += time.time() - t
    K[k] += 1
    return r


E.Engine.choose, E.Engine._check = choose, check
for j in jobs:
    if j[0] == name:
        n, fn, params, o = (list(j) + [{}])[:4]
        oo = dict(seed=1, budget=120, feas_ms=1500, vc_ms=20000)
        oo.update(o)
        try:
            import cProfile, pstats
            pr = cProfile.Profile()
            t = time.time()
            if '-p' in sys.argv:
                pr.enable()
            r = H.run_job(fn, params, mods, oo)
            pr.disable()
            print({k: r[k] for k in r if k not in ('evidence',)} if '-v' in sys.argv else r['status'], time.time() - t)
            if '-p' in sys.argv:
                pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
        finally:
            for k, v in C.most_common(15):
                print('FORK', v, k)
            for k, v in T.most_common(12):
                print('TIME %.1f queries %d %s' % (v, K[k], k))
