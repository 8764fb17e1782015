import itertools
import multiprocessing as mp
import os
import shutil
import tempfile
import numpy as np
from .. import gen
from oranssi import utils

RULE = ('one evaluation = one save_path_creator call whose return value and resulting file system are compared with the '
        'specification; in race cases another creator acts at an exact file-system call (injected) or real processes start '
        'from a barrier; distinct = (layout, interleaving point or process count); non-trivial when somebody else creates '
        'part of the path, content exists, or a file is in the way.')
NEED = {'created': 200, 'preserved': 100, 'race': 100, 'blocked': 30}
SERIAL = True
# '' is what the experiments of the repository pass
ATOMS = ['run', 'a b', 'ex.1', 'Ü', 'nested/deep', 'x/y/z', 'q=3_eta=0.1', '', 'a/../b', './c', '~', '$HOME', '%d', 'a*b', '.hidden', '...', 'x~', 'UPPER/lower', 'trailing ', '-p', 'a:b', 'n\u00f6/\u6f22']


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(1500 if big else 200):
        out.append({'kind': 'plain', 'base': ['', 'out', 'out/sub', 'out/', '~', '$HOME/x'][rng.integers(6)], 'name': ATOMS[rng.integers(len(ATOMS))], 'pre': int(rng.integers(6)), 'rel': bool(rng.random() < 0.3), 'rep': int(rng.integers(1, 4)), 'seed': gen.sub(rng)})
    for name in [a for a in ATOMS if '..' not in a]:
        for where in range(3):
            for _ in range(4 if big else 2):
                out.append({'kind': 'blocked', 'base': ['', 'out', 'out/sub'][where], 'name': name, 'depth': int(rng.integers(5)), 'seed': gen.sub(rng)})
    for name in [a for a in ATOMS if '..' not in a]:
        for point in range(1, 14):
            for nested in (False, True):
                out.append({'kind': 'inject', 'base': 'out', 'name': name, 'point': point, 'partial': nested, 'seed': gen.sub(rng)})
    for _ in range(60 if big else 10):
        out.append({'kind': 'race', 'procs': int(rng.choice([2, 4, 8])), 'rounds': 40, 'seed': gen.sub(rng)})
    return out


def listing(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = ('link', os.readlink(p)) if os.path.islink(p) else ('dir', os.stat(p).st_ino)
        for x in fs:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = (open(p, 'rb').read(), os.stat(p).st_ino)
    return out


def prefixes(rel):
    parts = [p for p in rel.split('/') if p]
    return ['/'.join(parts[:i]) for i in range(1, len(parts) + 1)]


def run(case, m):
    root = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    cwd, home = os.getcwd(), os.environ.get('HOME')
    try:
        os.chdir(root)
        os.environ['HOME'] = os.path.join(root, 'home')     # should a name be expanded, it stays in the scratch directory
        {'plain': plain, 'blocked': blocked, 'inject': inject, 'race': race}[case['kind']](case, m, root)
    finally:
        if home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = home
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def target(case, root):
    base = case['base'] if case.get('rel') else os.path.join(root, case['base'])
    return base, os.path.join(base, case['name'])


def plain(case, m, root):
    rng = np.random.default_rng(case['seed'])
    if not case['base'] and not case['name']:
        return                                  # the empty path names nothing
    base, want = target(case, root)
    pre = case['pre']
    if pre == 5 and case['base']:            # the base is a symbolic link to a directory
        os.makedirs(os.path.join(root, 'real'))
        os.makedirs(os.path.dirname(os.path.join(root, case['base'].rstrip('/'))), exist_ok=True)
        os.symlink(os.path.join(root, 'real'), os.path.join(root, case['base'].rstrip('/')))
    if pre == 4 and case['name'] in ATOMS[:4]:            # so is the result directory itself
        os.makedirs(os.path.join(root, case['base']), exist_ok=True)
        os.makedirs(os.path.join(root, 'elsewhere'))
        os.symlink(os.path.join(root, 'elsewhere'), os.path.join(root, case['base'], case['name']))
    if pre >= 1:
        os.makedirs(os.path.join(root, case['base']), exist_ok=True)
        open(os.path.join(root, case['base'], 'keep.txt'), 'w').write('k%d' % case['seed'])
    if pre in (2, 3, 4):
        d = os.path.join(root, case['base'], case['name'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'data.npy'), 'wb').write(rng.bytes(50))
        os.makedirs(os.path.join(d, 'inner'), exist_ok=True)
        open(os.path.join(d, 'inner', 'x'), 'wb').write(b'')
    if pre == 3:
        os.chmod(os.path.join(root, case['base'], case['name']), 0o750)
    mode = os.stat(os.path.join(root, case['base'], case['name'])).st_mode if pre == 3 else None
    for _ in range(case['rep']):
        before = listing(root)
        got = m.call('save_path_creator(%r, %r)' % (base, case['name']), utils.save_path_creator, base, case['name'])
        after = listing(root)
        m.check(got == want, 'returned path is not path/experiment_name', 'created', got=got, want=want)
        m.check(os.path.isdir(os.path.join(root, case['base'], case['name'])), 'the directory does not exist afterwards', 'created', stop=True, case=case)
        m.check(all(after.get(k, 0) == v for k, v in before.items()), 'existing content was changed', 'preserved', stop=True, before=sorted(before), after=sorted(after))
        if mode is not None:
            m.check(os.stat(os.path.join(root, case['base'], case['name'])).st_mode == mode, 'mode of an existing directory changed', 'preserved')
        new = set(after) - set(before)
        allowed = set(prefixes(os.path.normpath(os.path.join(case['base'], case['name'])))) | {os.path.join(case['base'], 'a')}
        if pre == 5:
            allowed |= {os.path.join('real', p) for p in prefixes(os.path.normpath(case['name'])) + ['a']}
        m.check(new <= {os.path.normpath(p) for p in allowed}, 'unrelated files or directories were created', 'created', new=sorted(new))
    if pre:
        m.key('plain', case['base'], case['name'], pre, case['rel'])
    m.sample(path=base.replace(root, '<scratch>'), name=case['name'], existing=pre)


def blocked(case, m, root):
    full = os.path.join(case['base'], case['name']).strip('/')
    pre = prefixes(os.path.normpath(full))
    if pre in ([], ['.']):
        return
    at = pre[case['depth'] % len(pre)]
    os.makedirs(os.path.dirname(os.path.join(root, at)), exist_ok=True)
    open(os.path.join(root, at), 'w').write('important')
    before = listing(root)
    m.rejects('a path with the file %s as component' % at, utils.save_path_creator, os.path.join(root, case['base']), case['name'])
    m.check(all(listing(root).get(k, 0) == v for k, v in before.items()), 'the file in the way was changed', 'blocked')
    m.key('blocked', full, at)


def inject(case, m, root):
    """Another process (played by the hook) creates the directory right before or after the k-th file-system call."""
    base = os.path.join(root, case['base'])
    full = os.path.join(base, case['name'])
    if case['partial']:
        os.makedirs(base)
    pre = [os.path.join(root, p) for p in prefixes(os.path.normpath(os.path.relpath(full, root)))]
    real = {k: getattr(os, k) for k in ('mkdir', 'makedirs', 'stat', 'lstat', 'listdir', 'access')}
    realp = {k: getattr(os.path, k) for k in ('exists', 'isdir', 'isfile', 'lexists')}
    seen = {'n': 0, 'done': False, 'busy': False}
    mk, st = real['mkdir'], real['stat']

    def rival():
        seen['done'] = True
        for p in pre:
            try:
                mk(p)
            except FileExistsError:
                pass
        with open(os.path.join(full, 'rival'), 'w') as fh:
            fh.write('rival')

    def wrap(fn):
        def hooked(*a, **k):
            if seen['busy']:
                return fn(*a, **k)
            seen['n'] += 1
            here = seen['n']
            if here == (case['point'] + 1) // 2 and case['point'] % 2 and not seen['done']:
                seen['busy'] = True
                rival()
                seen['busy'] = False
            try:
                return fn(*a, **k)
            finally:
                if here == case['point'] // 2 and not case['point'] % 2 and not seen['done']:
                    seen['busy'] = True
                    rival()
                    seen['busy'] = False
        return hooked
    try:
        for k, v in real.items():
            setattr(os, k, wrap(v))
        for k, v in realp.items():
            setattr(os.path, k, wrap(v))
        got = m.call('save_path_creator while another process creates %s at file-system call %d' % (case['name'], case['point']), utils.save_path_creator, base, case['name'])
    finally:
        for k, v in real.items():
            setattr(os, k, v)
        for k, v in realp.items():
            setattr(os.path, k, v)
    m.check(got == full and os.path.isdir(full), 'directory missing after a concurrent creation', 'created', stop=True)
    if seen['done']:
        m.check(os.path.isfile(os.path.join(full, 'rival')) and open(os.path.join(full, 'rival')).read() == 'rival', 'content of the concurrent creator was lost', 'injected')
        m.key('inject', case['name'], case['point'], case['partial'])
    m.sample(name=case['name'], point=case['point'], fs_calls=seen['n'], rival_acted=seen['done'])


def worker(root, me, rounds, barrier, q):
    err = None
    for i in range(rounds):
        barrier.wait(60)
        try:
            name = ['shared', 'shared/deep', 'shared/deep/er'][(me + i) % 3] if i % 2 else 'shared'
            p = utils.save_path_creator(os.path.join(root, 'r%d' % i), name)
            with open(os.path.join(p, 'w%d' % me), 'w') as f:
                f.write(str(me))
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, str(e)[:200])
    q.put((me, err))


def race(case, m, root):
    ctx = mp.get_context('fork')
    barrier = ctx.Barrier(case['procs'])
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(root, i, case['rounds'], barrier, q)) for i in range(case['procs'])]
    for p in ps:
        p.start()
    errs = dict(q.get(timeout=120) for _ in ps)
    for p in ps:
        p.join(30)
    bad = {k: v for k, v in errs.items() if v}
    m.check(not bad, 'concurrent creators failed: %s' % bad, 'race', stop=True)
    for i in range(case['rounds']):
        found = {f for _, _, fs in os.walk(os.path.join(root, 'r%d' % i)) for f in fs}
        m.check(found == {'w%d' % k for k in range(case['procs'])}, 'a creator lost its output', 'race', stop=True, found=sorted(found))
    m.key('race', case['procs'], case['seed'])
