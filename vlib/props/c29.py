import itertools
import numpy as np
from scipy.optimize import minimize
from .. import ref, gen, build
from ..mon import snap
from .common import flags, make_layer
from oranssi import optimizers

RULE = ('one evaluation = one application of the expansion-matching layer: the returned unitary is decomposed into the three '
        'ansatz angles, and the mismatch of the second-order product expansion at these angles is compared with the local minimum '
        'an independent optimizer reaches from there; distinct = (observables, eta, state kind); non-trivial when the target is not zero.')
NEED = {'ansatz': 150, 'match': 150, 'history': 40, 'stateonly': 40, 'zero': 5, 'optimizer': 8}
HH = np.kron(np.array([[1, 1], [1, -1]]), np.array([[1, 1], [1, -1]])) / 2.0
WORDS = [('X', (0,)), ('X', (1,)), ('ZZ', (0, 1)), ('YZ', (0, 1)), ('ZY', (0, 1))]


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(700 if big else 90):
        out.append({'kind': 'layer', 'obs': gen.observables(rng, 2, 1, 4, maxk=2, herm=0.05), 'eta': gen.eta(rng), 'start': ['haar', 'circ', 'zero'][rng.choice(3, p=[0.5, 0.35, 0.15])], 'circ': gen.circuit(rng, 2, 5),
                    'calls': 3, 'seteta': bool(rng.random() < 0.3), 'seed': gen.sub(rng)})
    for _ in range(200 if big else 30):        # targets around the precision of the search
        out.append({'kind': 'layer', 'obs': gen.observables(rng, 2, 1, 4, maxk=2, herm=0.05), 'eta': float(10 ** rng.uniform(-3.6, -1.5)), 'start': ['haar', 'circ'][rng.integers(2)], 'circ': gen.circuit(rng, 2, 5),
                    'calls': 3, 'seteta': False, 'seed': gen.sub(rng)})
    for _ in range(60 if big else 10):
        out.append({'kind': 'opt', 'obs': gen.observables(rng, 2, 1, 4, maxk=2), 'eta': gen.eta(rng), 'circ': gen.circuit(rng, 2, 5), 'nsteps': int(rng.integers(1, 5)), 'seed': gen.sub(rng)})
    return out


def ansatz(x):
    return ref.rot(ref.pauli_word('ZZ', (0, 1), 2), x[2]) @ ref.rot(ref.pauli_word('X', (0,), 2), x[0]) @ ref.rot(ref.pauli_word('X', (1,), 2), x[1]) @ HH


def angles(V):
    """All angle triples in (-4 pi, 4 pi) whose ansatz is V; empty when there is none."""
    W = V @ HH
    best, z = -1, 0.0
    for p in itertools.product('IX', repeat=2):
        P = ref.kron(*[ref.PAULI[c] for c in p])
        a = np.trace(P @ W) / 4
        b = np.trace((ref.pauli_word('ZZ', (0, 1), 2) @ P).conj().T @ W) / 4          # cos a_p, -i sin a_p
        if abs(a) + abs(b) > best:
            best = abs(a) + abs(b)
            z = 2 * np.arctan2((1j * b * np.conj(a)).real, abs(a) ** 2) if abs(a) > abs(b) else 2 * np.arctan2(abs(b) ** 2, (1j * b * np.conj(a)).real)
    R = ref.rot(ref.pauli_word('ZZ', (0, 1), 2), -z) @ W
    T = R.reshape(2, 2, 2, 2).transpose(0, 2, 1, 3).reshape(4, 4)     # product operators have rank one here
    u, s, v = np.linalg.svd(T)
    A, B = u[:, 0].reshape(2, 2), v[0].reshape(2, 2)

    def ang(M):
        i, x = np.trace(M), np.trace(ref.PX @ M)
        return 2 * np.arctan2((1j * x * np.conj(i)).real, abs(i) ** 2) if abs(i) > abs(x) else 2 * np.arctan2(abs(x) ** 2, (1j * x * np.conj(i)).real)
    x = np.array([ang(A), ang(B), z])
    out = []
    for k in itertools.product((-2, -1, 0, 1, 2), repeat=3):
        y = x + 2 * np.pi * np.array(k)
        if np.max(np.abs(ansatz(y) - V)) < 1e-7:
            out.append(y)
    return out


def target(psi, H, eta):
    return [eta * ref.grad_im(psi, ref.pauli_word(w, q, 2), H) for w, q in WORDS]


def mismatch(x, t):
    """Mean squared difference between the second-order expansion of the ansatz and the target."""
    return float(np.mean([(-x[0] - t[0]) ** 2, (-x[1] - t[1]) ** 2, (-x[2] - t[2]) ** 2, (x[0] * x[2] - t[3]) ** 2, (x[1] * x[2] - t[4]) ** 2]))


def judge(m, U, V, H, eta, case):
    m.check(V.shape == (4, 4) and np.all(np.isfinite(V)), 'garbage', 'ansatz', stop=True)
    xs = angles(V)
    m.check(len(xs) > 0, 'the returned unitary is not the ansatz at any angles', 'ansatz', stop=True)
    t = target(U[:, 0], H, eta)
    x = min(xs, key=lambda y: mismatch(y, t))
    c = mismatch(x, t)
    r = minimize(lambda y: mismatch(y, t), x, method='BFGS', options={'gtol': 1e-9})
    # the layer's simplex search stops within 1e-8 of the minimum and 1.2e-4 of its angles (measured over 1282 applications)
    m.check(c <= r.fun + 3e-7 * (1 + r.fun), 'the angles do not minimise the mismatch with the target', 'match', stop=True, x=x, cost=c, best=float(r.fun), target=t)
    if max(abs(v) for v in t) < 0.3:
        m.check(np.max(np.abs(x - r.x)) < 5e-4, 'an angle is off the minimum of the mismatch', 'match', stop=True, x=x, best=r.x, target=t)
    if max(abs(v) for v in t) < 1e-12:
        m.close(V, HH, 'a vanishing target does not give the start of the ansatz', 2e-3, 'zero')
    else:
        m.key(case['obs'], eta, case.get('start', 'opt'))
    m.sample(obs=case['obs'], eta=eta, target=[float(v) for v in t], angles=[float(v) for v in x], mismatch=c, best=float(r.fun))


def run(case, m):
    rng = np.random.default_rng(case['seed'])
    H = ref.ham(case['obs'], 2)
    obs = build.observables(case['obs'])
    dev = build.device(2)
    eta = case['eta']
    L = m.call('constructing', make_layer, 'v2', dev, obs, eta, **flags(case['seed']))
    if case['kind'] == 'opt':
        costs, us = m.call('run', optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, layers=[L], nsteps=case['nsteps'], tol=None, return_unitary=True)
        for k in range(case['nsteps']):
            judge(m, np.asarray(us[k]), np.asarray(us[k + 1]), H, eta, case)
            m.close(float(costs[k + 1]), ref.energy(np.asarray(us[k + 1]), H), 'cost of the step', 1e-8, 'optimizer')
        return
    U = {'haar': lambda: ref.haar(rng, 4), 'circ': lambda: ref.unitary(case['circ'], 2), 'zero': lambda: np.eye(4, dtype=complex)}[case['start']]()
    U0 = U
    first = None
    for k in range(case['calls']):
        keep = snap(U)
        V = np.asarray(m.call('application %d' % k, L, U))
        m.check(snap(U) == keep, 'the layer modified its input', 'purity')
        judge(m, U, V, H, eta, case)
        if first is None:
            first = V
        if k == 0:
            W = np.eye(4, dtype=complex)
            W[1:, 1:] = ref.haar(rng, 3)
            m.close(m.call('application', L, U @ W), V, 'the layer depends on more than the state', 1e-2, 'stateonly')
        U = V if k % 2 == 0 else ref.haar(rng, 4)
    m.close(m.call('application', L, U0), first, 'the layer depends on its history', 1e-9, 'history')
    if case['seteta']:
        e2 = gen.eta(rng)
        m.call('set_eta', L.set_eta, e2)
        V = np.asarray(m.call('application', L, U0))
        judge(m, U0, V, H, e2, case)
