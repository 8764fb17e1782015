import numpy as np
from .. import ref, gen, build
from .common import floats, gates_only
from oranssi import optimizers

RULE = ('one evaluation = one optimizer step whose successor state is compared with the reference flow step applied to '
        'the recorded predecessor state; distinct = (n, observables, eta, circuit seed); non-trivial when the reference '
        'step moves the state by more than 1e-6.')
NEED = {'step': 300, 'unitary': 80, 'start': 80}


def cases(rng, tier):
    out = []
    for _ in range(330 if tier == 'quick' else 3000):
        n = int(rng.choice([1, 2, 3, 4, 5, 6], p=[0.17, 0.3, 0.26, 0.17, 0.08, 0.02]))
        out.append({'n': n, 'obs': gen.observables(rng, n, 1, 6, maxk=n), 'circ': gen.any_circuit(rng, n), 'eta': gen.eta(rng),
                    'nsteps': int(rng.integers(1, 9)) if rng.random() < 0.9 or n > 4 else int(rng.integers(20, 55)), 'flags': bool(rng.random() < 0.7)})
    return out


def run(case, m):
    n, eta = case['n'], case['eta']
    obs = build.observables(case['obs'])
    H = ref.ham(case['obs'], n)
    dev = build.device(n)
    r = m.call('exact optimizer', optimizers.exact_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev,
               nsteps=case['nsteps'], eta=eta, tol=0.0, return_state=True, return_unitary=True)
    if not m.check(isinstance(r, tuple) and len(r) == 3, 'exact optimizer did not return costs, states and unitary', 'shape', stop=True):
        return
    costs, states, U = r
    costs = floats(costs)
    states = [np.asarray(s).reshape(-1) for s in states]
    U = np.asarray(U)
    m.check(len(costs) == len(states) and 2 <= len(costs) <= case['nsteps'] + 1, 'costs and states do not line up', 'shape', stop=True, costs=len(costs), states=len(states))
    start = ref.sim(case['circ'], n)
    m.check(abs(abs(np.vdot(start, states[0])) - 1) < 1e-8, 'trajectory does not start at the circuit state', 'start')
    prep = len(gates_only(case['circ'])) != len(case['circ'])
    W = None if prep else ref.unitary(case['circ'], n)
    for k in range(len(states) - 1):
        want = ref.exact_step(states[k], case['obs'], n, eta)
        m.close(states[k + 1], want, 'step %d leaves the Riemannian gradient flow' % k, 1e-8, 'step', stop=True, obs=case['obs'], eta=eta)
        m.close(costs[k + 1], ref.energy(want, H), 'cost after step %d' % k, 1e-8, 'cost')
        if np.max(np.abs(want - states[k])) > 1e-6:
            m.key(n, case['obs'], eta, case['circ'][:2])
        if W is not None:
            V = np.eye(2 ** n, dtype=complex)
            psi = states[k]
            for o in case['obs']:
                F = ref.expm_h(1j * ref.comm(np.outer(psi, psi.conj()), ref.obs_matrix(o, n)), eta / 2)
                psi = F @ psi
                V = F @ V
            W = V @ W
    m.check(U.shape == (2 ** n, 2 ** n) and ref.unitary_err(U) < 1e-8, 'returned unitary is not unitary', 'unitary')
    m.close(U[:, 0], states[-1], 'final unitary does not generate the final state', 1e-8, 'unitary')
    if W is not None:
        ph = np.trace(W.conj().T @ U) / 2 ** n
        m.check(abs(abs(ph) - 1) < 1e-7 and np.max(np.abs(U - ph * W)) < 1e-7, 'final unitary is not the circuit unitary followed by the flow steps', 'unitary', overlap=abs(ph))
    m.sample(n=n, obs=case['obs'], eta=eta, costs=costs)
