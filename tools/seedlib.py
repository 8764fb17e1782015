"""Builds /verif/seeded/<id>/ from the specs in seed_specs*.py after confirming each in a scratch copy of /repo.
Usage: python3 tools/seedlib.py SPECFILE [id ...]      (by hand; no check uses it)"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
VER = '/verif'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# exit 0: behaves as promised; nonzero: property broken. Run with cwd = repository.
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -W ignore "$here/demo.py" >/dev/null
'''
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
'''


def build(spec):
    i = spec['id']
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        for f, old, new in spec['edits']:
            p = os.path.join(repo, 'oranssi', f)
            s = open(p).read()
            nth = 1
            if isinstance(old, tuple):
                old, nth = old
            if nth == 'all':
                assert s.count(old) >= 1, (i, 'missing', old)
                s = s.replace(old, new)
            else:
                assert s.count(old) >= nth, (i, 'missing', old)
                if nth == 1 and s.count(old) != 1 and not spec.get('multi'):
                    raise AssertionError((i, 'ambiguous', s.count(old), old))
                pos = -1
                for _ in range(nth):
                    pos = s.index(old, pos + 1)
                s = s[:pos] + new + s[pos + len(old):]
            open(p, 'w').write(s)
        diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
        assert diff, i
        d = os.path.join(VER, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(PRE + spec['demo'].lstrip('\n'))
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True, text=True)
        env = dict(os.environ, MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'oranssi/tests'], cwd=repo, env=env, capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        msg = '%s %s demo clean=%d bug=%d tests=%s' % (i, 'OK' if ok else 'BAD', a.returncode, b.returncode, t.stdout.strip().splitlines()[-1:])
        if a.returncode:
            msg += '\n' + a.stderr[-800:]
        if b.returncode and 'AssertionError' not in b.stderr:
            msg += '\n' + b.stderr[-500:]
        if not ok:
            msg += '\n' + '\n'.join(t.stdout.strip().splitlines()[-8:])
            shutil.rmtree(d)
        else:
            env2 = dict(os.environ, VERIF_REPO=repo)
            if '--nocheck' not in sys.argv:
                c = subprocess.run(['./run.sh', spec['property']], cwd=VER, env=env2, capture_output=True, text=True)
                msg += '  CHECK rc=%d %s' % (c.returncode, 'CAUGHT' if c.returncode == 1 else 'MISSED')
                msg += '\n     ' + '\n     '.join(c.stdout.strip().splitlines()[-2:])[:400]
        return msg
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    sp = importlib.util.spec_from_file_location('specs', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    ids = [a for a in sys.argv[2:] if not a.startswith('--')]
    todo = [s for s in m.SPECS if not ids or s['id'] in ids]

    def safe(s):
        try:
            return build(s)
        except Exception as e:
            return '%s ERROR %r' % (s['id'], e)
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(safe, todo):
            print(r, flush=True)
