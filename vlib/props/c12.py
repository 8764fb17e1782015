import numpy as np
from .. import ref, gen, build
from ..mon import snap
from oranssi import opt_tools

RULE = ('one evaluation = one layer application compared entrywise with the reference step; distinct = (layer, n, '
        'observables, directions, Trotter flag, eta); non-trivial when the reference step moves the unitary by > 1e-6.')
NEED = {'step': 400, 'fixed': 40, 'rejections': 10, 'invariant': 50}


def cases(rng, tier):
    out = []
    for _ in range(320 if tier == 'quick' else 4000):
        n = int(rng.choice([1, 2, 3, 4, 5, 6], p=[0.15, 0.43, 0.2, 0.18, 0.02, 0.02]))
        kind = ['local', 'custom'][int(rng.random() < 0.45)]
        loc = 2 if (kind == 'local' and n % 2 == 0 and rng.random() < 0.6) else 1
        pool = ref.words(loc, 'XYZ') if kind == 'local' else ref.words(1, 'XYZ') + ref.words(2, 'XYZ')
        if rng.random() < 0.35:
            dirs = None
        else:
            dirs = [pool[i] for i in rng.permutation(len(pool))[:int(rng.integers(1, len(pool) + 1))]]
            if n < 4 and rng.random() < 0.06:
                dirs = []                     # nothing to follow: the layer stands still
        calls = 3 if n > 3 else int(rng.choice([3, 6, 14, 60], p=[0.63, 0.2, 0.13, 0.04])) if n < 3 else int(rng.choice([3, 6, 14], p=[0.7, 0.2, 0.1]))
        etas = [gen.eta(rng) if rng.random() < 0.3 else None for _ in range(calls)]      # set_eta before that call
        out.append({'kind': kind, 'n': n, 'loc': loc, 'dirs': dirs, 'obs': gen.observables(rng, n, 1, 5, maxk=n, herm=0.08), 'trotter': bool(rng.random() < 0.5),
                    'eta': gen.eta(rng), 'check': bool(rng.random() < 0.3), 'stationary': bool(rng.random() < 0.15), 'calls': calls, 'etas': etas, 'form': int(rng.integers(4)), 'near': gen.near_clifford(rng, n) if rng.random() < 0.3 else None, 'seed': gen.sub(rng)})
        if rng.random() < 0.12:
            out[-1]['obs'] = gen.scaled(out[-1]['obs'], float(10 ** rng.uniform(0, 1.5)))
    out.append({'kind': 'reject'})
    return out


def run(case, m):
    if case['kind'] == 'reject':
        return reject(m)
    n = case['n']
    rng = np.random.default_rng(case['seed'])
    dev = build.device(n)
    obs = build.observables(case['obs'])
    eta = [case['eta']]
    kw = dict(eta=case['eta'], trotterize=case['trotter'], unitary_error_check=case['check'])
    if case['form'] == 3:                     # another layer on the same device, like observables on the same wires, used first
        twin = build.observables([[o[0], o[1], o[2] + 1] if o[0] == 'herm' else [o[0], o[1], o[2].translate(str.maketrans('XYZ', 'YZX')), o[3]] if o[0] == 'num' else [o[0].translate(str.maketrans('XYZ', 'YZX')), o[1]] for o in case['obs']])
        T = (opt_tools.LocalLieAlgebraLayer(dev, twin, case['loc'], eta=0.9) if case['kind'] == 'local' else opt_tools.CustomDirectionLieAlgebraLayer(dev, twin, directions=None, eta=0.9))
        T(ref.haar(rng, 2 ** n))
    if case['kind'] == 'local':
        if case['dirs'] is not None:
            kw['directions'] = list(case['dirs'])
        if case['seed'] % 3:
            kw['stride'] = case['seed'] % 2
        L = m.call('constructing the local layer', opt_tools.LocalLieAlgebraLayer, dev, obs, case['loc'], **kw)
        basis = ref.words(case['loc'], 'XYZ')
        dirs = [w for w in basis if case['dirs'] is None or w in case['dirs']]
        step = lambda U: ref.local_step(U, case['obs'], n, eta[0], case['loc'], dirs, case['trotter'])
    else:
        L = m.call('constructing the custom layer', opt_tools.CustomDirectionLieAlgebraLayer, dev, obs, directions=None if case['dirs'] is None else list(case['dirs']), **kw)
        labels = [(w, q) for w, q in ref.local_words(n, (1, 2)) if case['dirs'] is None or w in case['dirs']]
        dirs = case['dirs']
        step = lambda U: ref.custom_step(U, case['obs'], n, eta[0], labels, case['trotter'])
    H = ref.ham(case['obs'], n)
    U = ref.haar(rng, 2 ** n)
    if case['stationary']:
        w, v = np.linalg.eigh(ref.obs_matrix(case['obs'][0], n))
        if len(case['obs']) == 1:
            Z = rng.normal(size=U.shape) + 1j * rng.normal(size=U.shape)
            Z[:, 0] = v[:, rng.integers(len(w))]
            U, _ = np.linalg.qr(Z)
    elif case.get('near'):
        U = ref.unitary(case['near'], n)
    elif case['seed'] % 5 == 0:
        U = np.linalg.qr(rng.normal(size=U.shape))[0]       # floats
        if case['seed'] % 3 == 0:
            U = np.eye(2 ** n)[rng.permutation(2 ** n)].astype(int)
    buf = np.empty(U.shape, dtype=complex)
    for k in range(case['calls']):
        if k and case['etas'][k] is not None:
            eta[0] = case['etas'][k]
            given = eta[0] if rng.random() < 0.6 else np.array(eta[0]) if rng.random() < 0.7 else np.float64(eta[0])
            m.call('set_eta', L.set_eta, given)
            if type(given) is np.ndarray:
                given[...] = 0.5 * given + 0.2          # the array is the caller's
        if case['form'] == 1:
            buf[...] = U                      # the caller reuses one array for all its unitaries
            U = buf
        elif case['form'] == 2:
            U = np.asfortranarray(U)
        keep = snap(U)
        V = np.asarray(m.call('applying the layer', L, U))
        want = step(U)
        m.close(V, want, 'layer step differs from the projected gradient step (call %d)' % k, 1e-8, 'step', stop=True, case=case)
        m.check(snap(U) == keep, 'the layer modified its input', 'purity')
        if eta[0] == 0.0 or (case['stationary'] and len(case['obs']) == 1 and k == 0):
            m.close(V, U, 'layer moves at eta=0 or at a stationary state', 1e-7, 'fixed')
        if np.max(np.abs(want - U)) > 1e-6:
            m.key(case['kind'], n, case['loc'], case['obs'], dirs, case['trotter'], eta[0])
        moved = float(np.max(np.abs(want - U)))
        U = ref.haar(rng, 2 ** n) if k % 3 == 1 else V
    if case['seed'] % 3 == 0 and n <= 4:
        # a new step size concerns that layer alone: neither existing nor later layers with the default (or another) step size
        mk = (lambda **k: opt_tools.LocalLieAlgebraLayer(dev, obs, case['loc'], **k)) if case['kind'] == 'local' else (lambda **k: opt_tools.CustomDirectionLieAlgebraLayer(dev, obs, directions=None, **k))
        W = ref.haar(rng, 2 ** n)
        A, B = m.call('constructing', mk), m.call('constructing', mk, eta=0.35)
        a, b = np.array(m.call('applying', A, W)), np.array(m.call('applying', B, W))
        L.set_eta(0.85)
        B2 = m.call('constructing', mk, eta=0.2)
        B2.set_eta(0.77)
        for X, x in ((A, a), (B, b), (m.call('constructing', mk), a), (m.call('constructing', mk, eta=0.35), b)):
            m.close(np.asarray(m.call('applying', X, W)), x, 'the step size of one layer reaches another', 1e-9, 'step', stop=True)
        L.set_eta(eta[0])
    # independent consequence: to first order the step realises the gradient flow restricted to the directions
    if eta[0] > 0:
        L.set_eta(1e-5)
        psi = U[:, 0]
        V = np.asarray(m.call('applying the layer', L, U))
        if case['kind'] == 'local':
            import itertools
            gens = [(w, q) for q in itertools.combinations(range(n), case['loc']) for w in dirs]
        else:
            gens = labels
        slope = -2 * sum(ref.grad_im(psi, ref.pauli_word(w, q, n), H) ** 2 for w, q in gens) / 2 ** n / 2
        m.close((ref.energy(V, H) - ref.energy(U, H)) / 1e-5, slope, 'small step does not descend with the squared gradient', 1e-2 * (1 + abs(slope)), 'invariant')
    m.sample(kind=case['kind'], n=n, dirs=dirs, eta=case['eta'], trotter=case['trotter'], moved=moved)


def reject(m):
    dev2, dev3 = build.device(2), build.device(3)
    obs = build.observables([['Z', [0]]])
    Lo, Cu = opt_tools.LocalLieAlgebraLayer, opt_tools.CustomDirectionLieAlgebraLayer
    for d in (['A'], ['X', 'Q'], ['XX'], ['I'], ['XYZ'], ['x']):
        m.rejects('directions %s for SU(2)' % d, Lo, dev2, obs, 1, directions=d)
        m.key('reject', 1, d)
    for d in (['X'], ['XI'], ['XX', 'Z'], ['XYZ']):
        m.rejects('directions %s for SU(4)' % d, Lo, dev2, obs, 2, directions=d)
        m.key('reject', 2, d)
    for d in (['A'], ['XI'], ['XYZ'], ['X', 'bad']):
        m.rejects('directions %s for the custom layer' % d, Cu, dev2, obs, directions=d)
        m.key('reject', 'custom', d)
    m.rejects('SU(4) on an odd register', Lo, dev3, obs, 2)
