#!/opt/venv/bin/python
"""Decide one property:  run.py P05 [--tier quick|thorough] [--only SUBSTR] [-v]
   replay a counterexample:  run.py --replay FILE"""
import argparse
import importlib
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('QETPY_REPO', '/repo')
for k, v in (('OMP_NUM_THREADS', '1'), ('OPENBLAS_NUM_THREADS', '1'), ('MKL_NUM_THREADS', '1'),
             ('MPLBACKEND', 'Agg'), ('PYTHONDONTWRITEBYTECODE', '1')):
    os.environ[k] = v
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)


def load():
    import qetpy
    if not os.path.abspath(qetpy.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit('qetpy imported from %s, not %s' % (qetpy.__file__, REPO))
    from symqet import patch
    return patch.qetpy_modules()


def collect(prop, tier):
    m = importlib.import_module('harness.' + prop.lower())
    J = [(j + ({},))[:4] for j in m.jobs(tier)]
    # the same harnesses on integer arrays (e.g. raw ADC counts)
    rng = range(-50, 51)
    for pat, names in getattr(m, 'INTS', ()):
        for n, fn, params, o in list(J):
            if re.fullmatch(pat, n):
                J.append(('int/' + n, fn, dict(params, ints={k: rng for k in names}), o))
    return m, J


def run_parallel(jobs, mods, ncpu, opts, total_budget, verbose=False, decisive=None):
    from symqet import harness as H
    todo = list(enumerate(jobs))
    running = {}
    results = [None] * len(jobs)
    t0 = time.time()
    stop = None
    while todo or running:
        if stop and time.time() > stop:
            # the verdict is known: the other harnesses are not needed
            for i, _ in todo:
                results[i] = dict(status='stopped', notes=['a violation was found elsewhere'], violations=[],
                                  inconclusive=[])
            todo = []
            for q in running.values():
                q[3] = 0
        while todo and len(running) < ncpu:
            i, (name, fn, params, o) = todo.pop(0)
            left = total_budget - (time.time() - t0)
            oo = dict(opts)
            oo.update(o)
            oo['budget'] = min(oo['budget'], max(5, left))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                code = 0
                try:
                    if not verbose:
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 1)
                    res = H.run_job(fn, params, mods, oo)
                except BaseException:
                    res = dict(status='error', notes=[traceback.format_exc()[-3000:]],
                               violations=[], inconclusive=[])
                try:
                    with os.fdopen(w, 'w') as f:
                        f.write(json.dumps(res, default=str))
                finally:
                    os._exit(code)
            os.close(w)
            os.set_blocking(r, False)
            running[pid] = [i, r, b'', time.time() + oo['budget'] + 45]
        time.sleep(0.02)
        for pid in list(running):
            i, r, buf, dl = running[pid]
            try:
                while True:
                    chunk = os.read(r, 1 << 20)
                    if not chunk:
                        break
                    buf += chunk
            except BlockingIOError:
                pass
            running[pid][2] = buf
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                try:
                    while True:
                        chunk = os.read(r, 1 << 20)
                        if not chunk:
                            break
                        buf += chunk
                except BlockingIOError:
                    pass
                os.close(r)
                del running[pid]
                try:
                    results[i] = json.loads(buf.decode())
                except Exception:
                    results[i] = dict(status='crash', notes=['exit status %s' % st], violations=[],
                                      inconclusive=[])
                if decisive and stop is None and decisive(jobs[i][0], results[i]):
                    stop = time.time() + 25
                if verbose:
                    rr = results[i]
                    print('%-50s %-12s paths=%s vcs=%s proved=%s wall=%.1f viol=%d inc=%d val=%s mism=%s' % (
                        jobs[i][0], rr['status'], rr.get('stats', {}).get('paths'),
                        rr.get('stats', {}).get('vcs'), rr.get('proved'), rr.get('wall', 0),
                        len(rr['violations']), len(rr['inconclusive']), rr.get('validated'),
                        rr.get('mismatch')), flush=True)
            elif time.time() > dl:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                del running[pid]
                results[i] = dict(status='timeout' if dl else 'stopped', notes=['killed after its time budget'],
                                  violations=[], inconclusive=[])
                if verbose:
                    print(jobs[i][0], 'TIMEOUT', flush=True)
    return results


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return {'findings': [], 'fixed': []}
    with open(p) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    mods = load()
    m, jobs = collect(a.prop, tier)
    jobs = [j if len(j) == 4 else tuple(j) + ({},) for j in jobs]
    if a.only:
        jobs = [j for j in jobs if a.only in j[0]]
    opts = dict(seed=seed, budget=240 if tier == 'quick' else 1500,
                vc_ms=20000 if tier == 'quick' else 90000, witnesses=2)
    kf = [f for f in known_findings()['findings'] if f['property'] == a.prop]

    def listed(name, v):
        return next((f for f in kf if f['harness'] == name and v['claim'] in f['claims']), None)
    results = run_parallel(jobs, mods, os.cpu_count() or 4, opts,
                           780 if tier == 'quick' else 7200, a.v,
                           lambda name, r: any(not listed(name, v) for v in r['violations']))
    viol, known, bad = [], [], []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for (name, fn, params, o), r in zip(jobs, results):
        for k, v in enumerate(r['violations']):
            f = listed(name, v)
            if f:
                if f not in known:
                    known.append(f)
                continue
            path = os.path.join(rdir, '%s-%s-%d.json' % (a.prop, name.replace('/', '_').replace(' ', '_'), k))
            with open(path, 'w') as fh:
                json.dump(dict(property=a.prop, harness=name, claim=v['claim'], detail=v['detail'],
                               inputs=v['inputs'], observed=v['replay'], tier=tier,
                               how='run.py --replay <this file> re-executes the harness on the '
                                   'unmodified code with these inputs'),
                          fh, indent=1, default=str)
            viol.append((name, v, path))
        if r['status'] not in ('ok',) and not r['violations']:
            bad.append((name, r['status'], '; '.join(r['notes'])[:3000]))
        elif r['inconclusive']:
            inc = [c for c in r['inconclusive']]
            if not r['violations']:
                bad.append((name, 'inconclusive', json.dumps(inc, default=str)[:3000]))
    agg = {}
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            agg[k] = agg.get(k, 0) + v
    funcs = sorted({f for r in results for f in r.get('funcs', [])})
    validated = sum(r.get('validated', 0) or 0 for r in results)
    mism = sum(r.get('mismatch', 0) or 0 for r in results)
    samples = []
    for (name, fn, params, o), r in zip(jobs, results):
        for s in (r.get('samples') or [])[:1]:
            samples.append(dict(harness=name, params={k: str(v)[:120] for k, v in params.items()}, **s))
    ev = dict(
        property=a.prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=agg.get('paths', 0),
            transitions=agg.get('decisions', 0),
            traces_validated_against_impl=validated,
            samples=samples[:12],
            explanation='states = symbolic execution paths completed, transitions = symbolic '
                        'branch decisions, traces_validated_against_impl = solver models of a '
                        'path re-run on the unmodified code with the same claims evaluated and '
                        'the claimed values compared with the encoding',
            harnesses=len(jobs),
            harnesses_ok=sum(1 for r in results if r['status'] == 'ok' and not r['inconclusive']
                             and not r['violations']),
            functions_encoded=funcs,
            bounds=getattr(m, 'BOUNDS', ''),
            verification_conditions=agg.get('vcs', 0),
            decided_by_exact_normal_form=agg.get('vc_trivial', 0),
            identities_confirmed_by_solver=agg.get('identities_solver_confirmed', 0),
            identities_solver_timeout=agg.get('identities_solver_timeout', 0),
            scalar_identities=sum(r.get('identities', 0) or 0 for r in results),
            solver_queries=agg.get('vc_queries', 0) + agg.get('feas_queries', 0),
            feasibility_queries=agg.get('feas_queries', 0),
            feasibility_unknown_treated_as_feasible=agg.get('feas_unknown', 0),
            infeasible_paths=agg.get('infeasible', 0),
            solver_s=round(agg.get('solver_s', 0.0), 2),
            encoding_mismatches=mism,
            harnesses_undecided=[dict(harness=b[0], status=b[1]) for b in bad],
            per_harness=[dict(harness=j[0], status=r['status'], wall_s=round(r.get('wall', 0), 2),
                              paths=(r.get('stats') or {}).get('paths'),
                              vcs=(r.get('stats') or {}).get('vcs'))
                         for j, r in zip(jobs, results)],
        ),
        assumptions=ASSUME + list(getattr(m, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
    for f in kf:
        if f not in known and not a.only:
            print('note: known finding no longer observed: %s' % f['what'])
    print('%s %s: %d harnesses, %d paths, %d claims, %d queries, solver %.1fs, wall %.1fs, '
          'validated %d, mismatches %d' % (
              a.prop, tier, len(jobs), agg.get('paths', 0), agg.get('vcs', 0),
              agg.get('vc_queries', 0) + agg.get('feas_queries', 0), agg.get('solver_s', 0.0),
              time.time() - t0, validated, mism))
    if mism and a.v:
        for (n, _, _, _), r in zip(jobs, results):
            for x in r.get('notes', []):
                print('  note', n, x[:600])
    if viol:
        for name, v, path in viol[:8]:
            print('  %s: %s  %s' % (name, v['claim'], json.dumps(v['replay'], default=str)[:700]))
        print('VIOLATION property=%s replay=%s' % (a.prop, viol[0][2]))
        return 1
    for b in bad:
        print('UNDECIDED %s [%s] %s' % b)
    if bad:
        print('%d of %d harnesses were not decided (see the evidence); nothing is claimed about them' % (len(bad), len(jobs)))
    # the property held on everything explored, unless next to nothing could be
    return 2 if 2 * len(bad) >= max(1, len(jobs)) else 0


ASSUME = [
    'IEEE-754 floats are modelled as exact reals (float literals read as the nearest simple '
    'rational, pi and roots of unity exact); rounding, overflow and subnormals are outside the claim',
    'every denominator the executed code divides by is non-zero on the explored inputs',
    'numpy/scipy routines behave as documented; their real-arithmetic definitions (DFT, mean, '
    'least squares of linear models, matrix inverse, ...) are what the encoding executes',
]


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mods = load()
    from symqet import harness as H
    m, jobs = collect(d['property'], d.get('tier', 'quick'))
    job = next(j for j in jobs if j[0] == d['harness'])
    r = H.run_numeric(job[1], job[2], d['inputs'], mods)
    r.pop('values', None)
    print(json.dumps(r, indent=1, default=str))
    return 1 if H.broken(r) else 0


if __name__ == '__main__':
    sys.exit(main())
