"""usage: catch.py [BUG...]  -- runs each planted bug's property check on a
patched scratch copy of /repo (development aid; not a registered check)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(b):
    d = os.path.join(ROOT, 'seeded', b)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='catch_', dir='/tmp')
    try:
        shutil.copytree('/repo', tmp + '/repo', symlinks=True)
        shutil.copytree(ROOT, tmp + '/verif', symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded'))
        subprocess.run(['git', 'apply', d + '/patch.diff'],
                       cwd=tmp + '/repo', check=True)
        p = subprocess.run(
            [tmp + '/verif/check', meta['property'],
             os.environ.get('TIER', 'quick')], cwd=tmp + '/verif',
            capture_output=True, text=True,
            env=dict(os.environ, VERIF_REPO=tmp + '/repo', VERIF_SEED='1',
                     VERIF_TIER='quick'))
        out = [ln for ln in p.stdout.splitlines() if 'VIOLATION' in ln]
        names = []
        for ln in out:
            rp = ln.split('replay=')[1].split()[0]
            rp = rp if os.path.isabs(rp) else tmp + '/verif/' + rp
            try:
                names.append(json.load(open(rp)).get('obligation', '?'))
            except Exception as e:
                names.append(str(e)[:60])
        return b, p.returncode, out, names, p.stdout[-300:] if not out else ''
    finally:
        shutil.rmtree(tmp)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
    n = 0
    with ThreadPoolExecutor(int(os.environ.get("CATCH_JOBS", "2"))) as ex:
        for b, rc, out, names, tail in ex.map(one, ids):
            weak = [o for o in out if o.endswith('no-failing-input-found')]
            tag = 'MISS' if rc != 1 else ('weak' if len(weak) == len(out)
                                          else 'CAUGHT')
            n += rc == 1
            print(b, tag, rc, len(out), '; '.join(names)[:150], tail,
                  flush=True)
    print(n, 'of', len(ids))


main()
