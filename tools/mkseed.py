#!/opt/venv/bin/python
"""(Re)generate seeded/<id>/ from tools/seeds.py and confirm each one: demo passes on
/repo, fails on a patched scratch copy, and (with --tests) the test suite passes there.
usage: mkseed.py [--tests] [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds import SEEDS  # noqa
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
base = json.load(open('/opt/vp/BASELINE.json'))
tests = '--tests' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')]


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def one(s):
    id = s['id']
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seedwt')
    try:
        wt = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', wt, symlinks=True)
        for f, old, new in s['edits']:
            p = os.path.join(wt, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return id, 'EDIT matches %d times: %r' % (n, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], wt).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), f, indent=1)
            f.write('\n')
        msg = []
        r0 = sh(['bash', os.path.join(d, 'demo.sh')], '/repo')
        env = dict(os.environ, PYTHONPATH=wt)
        r1 = sh(['bash', os.path.join(d, 'demo.sh')], wt, env)
        if r0.returncode:
            msg.append('demo fails on clean: ' + r0.stderr[-300:] + r0.stdout[-200:])
        if not r1.returncode:
            msg.append('demo passes with bug')
        elif 'AssertionError' not in r1.stderr:
            msg.append('note: ' + r1.stderr[-200:])
        if tests:
            env['MPLBACKEND'] = 'Agg'
            x = os.path.join(tmp, 'j.xml')
            sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W', 'ignore', '-x' if 0 else '-q',
                '-o', 'junit_family=xunit2', '--junitxml=' + x], wt, env)
            import xml.etree.ElementTree as ET
            bad = sorted(t.get('classname') + '.' + t.get('name') for t in ET.parse(x).iter('testcase')
                         if t.find('failure') is not None or t.find('error') is not None)
            bad = [b for b in bad if 'test_autocuts' not in b and 'test_noise' not in b]
            msg.append('tests: ' + (str(bad) if bad else 'ok'))
        return id, '; '.join(msg) or 'ok'
    finally:
        shutil.rmtree(tmp)


todo = [s for s in SEEDS if not ids or s['id'] in ids]
with ThreadPoolExecutor(6) as ex:
    for id, m in ex.map(one, todo):
        print(id, m, flush=True)
