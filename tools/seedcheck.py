"""Runs the check of each planted bug (ids as arguments, default all) against a scratch copy with the bug applied. By hand; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VER = '/verif'
def run(i):
    d = os.path.join(VER, 'seeded', i)
    prop = os.environ.get('PROP') or json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['git', '-C', repo, 'apply', d + '/patch.diff'])
        c = subprocess.run(['./run.sh', prop, os.environ.get('TIER', 'quick')], cwd=VER, env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        return '%s %s rc=%d %s %s' % (i, prop, c.returncode, {1: 'CAUGHT', 0: 'MISSED'}.get(c.returncode, 'ERROR'), v[:1])
    finally:
        shutil.rmtree(tmp)
ids = sys.argv[1:] or sorted(os.listdir(VER + '/seeded'))
with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    for r in ex.map(run, ids):
        print(r[:300], flush=True)
