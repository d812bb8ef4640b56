"""usage: mkbug.py SPECS.py [ID...]   -- builds and confirms planted bugs.

SPECS.py defines BUGS: list of dict(id, property, needs, breaks, edits=[(file,
old, new[, occurrence])], demo=python source).  A bug is kept (written to
/verif/seeded/<id>) only if the patched scratch copy imports, passes the
stable tests, and the demonstration passes without it and fails with it."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
HEAD = '''import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np
'''


def stable():
    for k in ('stable_pass', 'stable', 'pass', 'passed', 'tests'):
        if k in BASE:
            v = BASE[k]
            return set(v if isinstance(v, list) else v.keys())
    raise SystemExit('BASELINE keys: %s' % list(BASE))


def run(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True,
                          text=True, timeout=timeout)


def tests(cwd):
    x = os.path.join(cwd, '..', 'junit.xml')
    run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W', 'ignore',
         '-o', 'junit_family=xunit2', '--junitxml=' + x], cwd)
    bad = []
    for t in ET.parse(x).getroot().iter('testcase'):
        if t.find('failure') is not None or t.find('error') is not None:
            bad.append(t.get('classname') + '::' + t.get('name'))
    return bad


def one(b):
    tmp = tempfile.mkdtemp(prefix='bug_', dir='/tmp')
    try:
        wt = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', wt, symlinks=True)
        dm = os.path.join(tmp, 'demo')
        os.mkdir(dm)
        open(os.path.join(dm, 'demo.py'), 'w').write(HEAD + b['demo'])
        open(os.path.join(dm, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(dm, 'demo.sh'), 0o755)
        r0 = run(['bash', dm + '/demo.sh'], wt)
        if r0.returncode:
            return b['id'], 'demo fails on clean: ' + (r0.stdout
                                                       + r0.stderr)[-600:]
        for e in b['edits']:
            f, old, new = e[:3]
            p = os.path.join(wt, 'pvfactors', f)
            s = open(p).read()
            n = s.count(old)
            k = e[3] if len(e) > 3 else 0
            if n == 0 or (n > 1 and len(e) < 4):
                return b['id'], '%d matches of %r' % (n, old)
            i = -1
            for _ in range(k + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
            open(p, 'w').write(s)
        r = run([PY, '-c', 'import pvfactors.run, pvfactors.report'], wt)
        if r.returncode:
            return b['id'], 'import: ' + r.stderr[-400:]
        r1 = run(['bash', dm + '/demo.sh'], wt)
        if r1.returncode == 0:
            return b['id'], 'demo passes with the bug'
        bad = [t for t in tests(wt)
               if 'test_ordered_pvarray_gnd_shadow_casting' not in t]
        if bad:
            return b['id'], 'tests fail: %s' % bad[:4]
        d = run(['git', 'diff'], wt).stdout
        out = '/verif/seeded/' + b['id']
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dm, out)
        open(out + '/patch.diff', 'w').write(d)
        json.dump(dict(property=b['property'], needs=b['needs'],
                       what_it_breaks=b['breaks']),
                  open(out + '/meta.json', 'w'), indent=1)
        return b['id'], 'KEPT ' + (r1.stdout + r1.stderr).strip(
        ).splitlines()[-1][:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(one, bugs):
            print(i, '--', m, flush=True)
