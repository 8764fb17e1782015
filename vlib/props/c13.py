import random
import numpy as np
from .. import ref, gen, build
from ..mon import snap
from .common import flags
from oranssi import opt_tools, optimizers

RULE = ('one evaluation = one layer application whose left factor is decomposed into a single Pauli rotation and compared '
        'with the gradient of that word in the entry state, or one decision over a recorded sequence of draws (coverage of '
        'qubits/directions, replay under the same seed); distinct = (n, observables, eta, seed) and (n, word, qubits) drawn; '
        'non-trivial when the left factor differs from the identity.')
NEED = {'step': 600, 'identified': 600, 'qubits': 400, 'directions': 100, 'seed': 20, 'reach': 5}


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for n, draws in ((1, 200), (2, 900), (3, 1600), (4, 3500 if big else 2600)):
        for _ in range(4 if big else 1):
            out.append({'kind': 'reach', 'n': n, 'draws': draws, 'seed': gen.sub(rng)})
    for n, draws in ((2, 400), (3, 900)):
        out.append({'kind': 'first', 'n': n, 'draws': draws * (3 if big else 1), 'seed': gen.sub(rng)})
    for _ in range(1200 if big else 160):
        n = int(rng.choice([1, 2, 3, 4, 5], p=[0.15, 0.35, 0.28, 0.17, 0.05]))
        out.append({'kind': 'step', 'n': n, 'obs': gen.observables(rng, n, 1, 5, maxk=n, herm=0.08), 'eta': gen.eta(rng), 'check': bool(rng.random() < 0.3), 'calls': int(rng.choice([6, 25, 70], p=[0.88, 0.08, 0.04])) if n < 4 else 6, 'seed': gen.sub(rng)})
    for _ in range(400 if big else 60):
        n = int(rng.choice([1, 2, 3, 4, 5], p=[0.15, 0.25, 0.25, 0.25, 0.1]))
        out.append({'kind': 'history', 'n': n, 'eta': float(np.round(rng.uniform(0.05, 1), 3)), 'draws': 40 if n > 3 else int(rng.choice([40, 110])), 'seed': gen.sub(rng)})
    for _ in range(200 if big else 30):
        n = int(rng.choice([1, 2, 3, 4]))
        out.append({'kind': 'seed', 'n': n, 'obs': gen.observables(rng, n, 1, 4), 'eta': gen.eta(rng), 'nsteps': int(rng.integers(1, 12)), 'circ': gen.generic_circuit(rng, n, 1), 'seed': gen.sub(rng)})
    return out


def lively(n):
    """Observables that commute with no one- or two-qubit word."""
    return [['X', [i]] for i in range(n)] + [['Z', [i]] for i in range(n)]


def step(m, L, U, H, n, eta, need=False):
    psi = U[:, 0]
    keep = snap(U)
    V = np.asarray(m.call('stochastic layer', L, U))
    m.check(snap(U) == keep, 'the layer modified its input', 'purity')
    m.check(V.shape == U.shape, 'shape of the result', 'step', stop=True)
    F = V @ U.conj().T
    r = ref.single_rotation(F, n, (1, 2), 1e-7)
    m.check(r is not None, 'the step is not a rotation about one one- or two-qubit Pauli word', 'step', stop=True, factor=F)
    if r[0] is None:
        m.event('identity')
        if need:
            m.event('unidentified')
        return V, None
    (w, q), ang = r
    m.event('identified')
    want = 2 * eta * ref.grad_im(psi, ref.pauli_word(w, q, n), H) / 2 ** n
    d = (ang - want + np.pi) % (2 * np.pi) - np.pi
    m.check(abs(d) < 1e-7, 'rotation angle about %s%s is not the gradient step' % (w, q), 'step', stop=True, got=ang, want=want)
    return V, (w, q)


def canon(w):
    return ''.join(sorted(w))


def run(case, m):
    n = case['n']
    rng = np.random.default_rng(case['seed'])
    dev = build.device(n)
    kind = case['kind']
    if kind == 'step':
        obs = build.observables(case['obs'])
        H = ref.ham(case['obs'], n)
        np.random.seed(case['seed'] % (1 << 31))
        L = m.call('constructing', opt_tools.StochasticLieAlgebraLayer, dev, obs, eta=case['eta'], **flags(case['seed']))
        U = ref.haar(rng, 2 ** n)
        eta = case['eta']
        for k in range(case['calls']):
            if k and rng.random() < 0.25:
                eta = gen.eta(rng)
                m.call('set_eta', L.set_eta, eta)
            U, r = step(m, L, U, H, n, eta)
            if r is not None:
                m.key(n, case['obs'], case['eta'], r)
            elif eta > 0:
                # only words whose gradient vanishes may leave the state alone
                m.event('still')
            if k % 2:
                U = ref.haar(rng, 2 ** n) if rng.random() < 0.7 else ref.unitary(gen.near_clifford(rng, n), n)
        m.sample(n=n, obs=case['obs'], eta=case['eta'], last=str(r))
    elif kind == 'first':
        # the very first step of a fresh layer can follow every word on every qubit or pair
        obs = lively(n)
        H = ref.ham(obs, n)
        np.random.seed(case['seed'] % (1 << 31))
        built = build.observables(obs)
        seen = set()
        want = set(ref.local_words(n, (1, 2)))
        for k in range(case['draws']):
            L = m.call('constructing', opt_tools.StochasticLieAlgebraLayer, dev, built, eta=1.0)
            seen.add(step(m, L, ref.haar(rng, 2 ** n, real=False), H, n, 1.0, True)[1])
            if seen >= want:
                break
        m.check(seen >= want, 'some directions are never drawn first', 'reach', missing=[str(x) for x in sorted(want - seen)[:8]])
        m.sample(n=n, draws=k + 1, distinct=len(seen))
    elif kind in ('history', 'reach'):
        eta = case.get('eta', 1.0)
        obs = lively(n)
        H = ref.ham(obs, n)
        np.random.seed(case['seed'] % (1 << 31))
        L = m.call('constructing', opt_tools.StochasticLieAlgebraLayer, dev, build.observables(obs), eta=eta)
        seq = []
        U = ref.haar(rng, 2 ** n, real=False)
        for k in range(case['draws']):
            V, r = step(m, L, U, H, n, eta, True)
            seq.append(r)
            U = ref.haar(rng, 2 ** n, real=False) if k % 3 == 0 or kind == 'history' else V
            if kind == 'reach' and k % 40 == 39:
                U = ref.haar(rng, 2 ** n, real=False)
        m.check(seq.count(None) <= 3, 'steps from generic states leave the unitary unchanged', 'step', still=seq.count(None))
        used = set()
        for k, r in enumerate(seq):
            if r is None:                    # gradient too small to see which word it was: resynchronise
                used = None
                continue
            if used is None:
                continue
            q = set(r[1])
            if len(used) == n:
                used = set()
            m.check(not (q & used), 'qubit used again before every qubit was used', 'qubits', stop=True, used=sorted(used), draw=str(r), history=[str(x) for x in seq[max(0, k - 6):k + 1]])
            used |= q
            m.key(n, r[0], r[1])
        for size, total in ((1, 3), (2, 9)):
            words = [canon(r[0]) for r in seq if r is not None and len(r[0]) == size]
            if None in seq:
                continue
            full = sorted(canon(w) for w in ref.words(size, 'XYZ'))
            for i in range(0, len(words) - total + 1, total):
                m.check(sorted(words[i:i + total]) == full, 'a direction is repeated before every direction of its length was used', 'directions', stop=True, block=words[i:i + total])
        if kind == 'reach':
            seen = {r for r in seq if r is not None}
            want = set(ref.local_words(n, (1, 2)))
            m.check(seen >= want, 'some directions are never drawn', 'reach', missing=sorted(want - seen)[:8])
            m.sample(n=n, draws=len(seq), distinct=len(seen), unidentified=seq.count(None))
    else:
        obs = build.observables(case['obs'])
        res = []
        for rep in range(3):
            random.seed(rep)
            np.random.seed((case['seed'] + (rep == 2)) % (1 << 31))
            d = build.device(n)
            if rep == 1:
                # different history before seeding must not matter
                np.random.rand(7)
                L0 = opt_tools.StochasticLieAlgebraLayer(d, obs, eta=0.3)
                L0(np.eye(2 ** n, dtype=complex))
                np.random.seed(case['seed'] % (1 << 31))
            L = m.call('constructing', opt_tools.StochasticLieAlgebraLayer, d, obs, eta=case['eta'])
            res.append(m.call('run', optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, d, layers=[L], nsteps=case['nsteps'], tol=None, return_unitary=True))
        for a, b in zip(res[0][1], res[1][1]):
            m.close(a, b, 'runs with the same seed differ', 1e-12, 'seed')
        m.key('seed', n, case['seed'])
