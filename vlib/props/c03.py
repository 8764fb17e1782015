import numpy as np
import pennylane as qml
from .. import ref, gen, build
from ..mon import snap
from oranssi import circuit_tools

RULE = ('one evaluation = one comparison of Hamiltonian matrix / state / expectation value with independent linear '
        'algebra and with device measurements; distinct = (n, observables, coefficient kind); non-trivial: at least '
        'one non-identity observable.')
NEED = {'ham': 80, 'expval': 200, 'state': 80, 'rejections': 4}


def cases(rng, tier):
    out = []
    for _ in range(320 if tier == 'quick' else 3000):
        n = int(rng.choice([1, 2, 3, 4, 5, 6], p=[0.15, 0.2, 0.25, 0.2, 0.15, 0.05]))
        obs = gen.observables(rng, n, 1, 6, maxk=n)
        if rng.random() < 0.3:
            k = int(rng.integers(1, min(n, 2) + 1))
            obs.append(['herm', gen.wires(rng, n, k), gen.sub(rng)])
            if rng.random() < 0.5:
                obs.insert(int(rng.integers(len(obs))), ['herm', list(obs[-1][1]), gen.sub(rng)])
        if rng.random() < 0.2:
            obs.append(['I', [int(rng.integers(n))]])
        if rng.random() < 0.2:
            obs.append(['H', [int(rng.integers(n))]])
        if rng.random() < 0.3:
            obs.insert(int(rng.integers(len(obs) + 1)), list(obs[int(rng.integers(len(obs)))]))
        out.append({'n': n, 'obs': obs, 'coeffs': ['none', 'list', 'array', 'ints', 'zeros', 'tuple', 'some0', 'scaled', 'tiny', 'minus', 'signs', 'near1', 'equal', 'mixed'][rng.integers(14)],
                    'circ': gen.any_circuit(rng, n), 'seed': gen.sub(rng)})
    out.append({'kind': 'reject'})
    return out


def herm(seed, k):
    r = np.random.default_rng(seed)
    a = r.normal(size=(2 ** k, 2 ** k)) + 1j * r.normal(size=(2 ** k, 2 ** k))
    return (a + a.conj().T) / 2


def make(o):
    if o[0] == 'herm':
        return qml.Hermitian(herm(o[2], len(o[1])), wires=o[1])
    if o[0] == 'H':
        return qml.Hadamard(wires=o[1][0])
    return build.observable(o)


def mat(o, n):
    if o[0] == 'herm':
        return ref.embed(herm(o[2], len(o[1])), o[1], n)
    if o[0] == 'H':
        return ref.embed((ref.PX + ref.PZ) / np.sqrt(2), o[1], n)
    return ref.obs_matrix(o, n)


def run(case, m):
    if case.get('kind') == 'reject':
        return reject(m)
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    obs = [make(o) for o in case['obs']]
    if case['seed'] % 2:                # equal entries are one and the same object
        obs = [obs[case['obs'].index(o)] for o in case['obs']]
    mats = [mat(o, n) for o in case['obs']]
    dim = 2 ** n
    kind = case['coeffs']
    c = {'none': None, 'list': [float(x) for x in rng.normal(size=len(obs))], 'array': rng.normal(size=len(obs)) * 10,
         'ints': [int(x) for x in rng.integers(-3, 4, size=len(obs))], 'zeros': [0.0] * len(obs),
         'tuple': tuple(float(x) for x in rng.normal(size=len(obs))), 'some0': [float(x) * (i % 2) for i, x in enumerate(rng.normal(size=len(obs)))],
         'minus': [-1.0] * len(obs), 'signs': [float(x) for x in rng.choice([-1, 1], size=len(obs))], 'near1': [1 + float(x) * 10.0 ** int(rng.integers(-6, -1)) for x in rng.normal(size=len(obs))],
         'equal': [float(rng.normal())] * len(obs), 'mixed': [int(rng.integers(-3, 4)) if i % 2 == case['seed'] // 2 % 2 else float(x) for i, x in enumerate(rng.normal(size=len(obs)))],
         'tiny': [float(x) * 10.0 ** int(rng.integers(-14, -7)) for x in rng.normal(size=len(obs))],
         'scaled': [float(x) * 10.0 ** int(rng.integers(-4, 5)) for x in rng.normal(size=len(obs))]}[kind]
    args = (n, obs) if c is None else (n, obs, c)
    before = snap([obs, c])
    H = m.call('building the Hamiltonian', circuit_tools.get_hamiltonian_matrix, *args)
    m.check(snap([obs, c]) == before, 'building the Hamiltonian modified its arguments', 'purity')
    want = sum((1.0 if c is None else c[i]) * M for i, M in enumerate(mats))
    m.close(H, want, 'Hamiltonian is not the weighted sum of the observables', 1e-9 if kind != 'tiny' else max(1e-9 * min(abs(x) for x in c), 1e-14 * max(abs(x) for x in c)), 'ham', stop=True, obs=case['obs'], coeffs=c)
    m.close(H, np.asarray(H).conj().T, 'Hamiltonian is not Hermitian', 1e-9, 'ham')
    c2 = rng.normal(size=len(obs))
    H2 = m.call('Hamiltonian', circuit_tools.get_hamiltonian_matrix, n, obs, c2)
    H3 = m.call('Hamiltonian', circuit_tools.get_hamiltonian_matrix, n, obs, list(2 * np.asarray(c2) + (1.0 if c is None else np.asarray(c))))
    m.close(H3, 2 * H2 + H, 'Hamiltonian is not linear in the coefficients', 1e-8, 'ham')
    keepH = np.array(H)
    # an earlier matrix belongs to the caller: writing into it reaches no later call
    H2[...] = 3
    m.close(m.call('Hamiltonian', circuit_tools.get_hamiltonian_matrix, *args), keepH, 'the Hamiltonian matrix is shared between calls', 1e-9, 'purity')
    rev = m.call('Hamiltonian', circuit_tools.get_hamiltonian_matrix, n, obs[::-1], None if c is None else list(c)[::-1])
    m.close(rev, keepH, 'the Hamiltonian depends on the order of the list', 1e-8 * max(1.0, float(np.max(np.abs(keepH)))), 'ham')
    # states and expectation values
    dev = build.device(n)
    sq = qml.QNode(circuit_tools.circuit_state_from_unitary, dev)
    eq = qml.QNode(circuit_tools.circuit_observable_from_unitary, dev)
    for U in (ref.haar(rng, dim), ref.unitary([g for g in case['circ'] if g['g'] not in ('BasisState', 'QubitStateVector')], n)):
        keep = snap(U)
        psi = m.call('state from unitary', sq, unitary=U)
        m.close(psi, U[:, 0], 'state is not the first column of the unitary', 1e-10, 'state', stop=True)
        total = 0.0
        for i, (o, M) in enumerate(zip(obs, mats)):
            e = float(m.call('expectation value', eq, unitary=U, observable=o))
            m.close(e, ref.energy(U, M), 'measured expectation value differs from <0|U^dagger O U|0>', 1e-8, 'expval', obs=case['obs'][i])
            total += (1.0 if c is None else float(c[i])) * e
        m.close(ref.energy(U, np.asarray(H)), total, 'energy of the Hamiltonian matrix differs from the measured sum', 1e-7, 'expval')
        m.check(snap(U) == keep, 'the unitary was modified', 'purity')
        # interleaved and repeated calls do not influence each other
        psi2 = m.call('state from unitary', sq, unitary=U)
        m.close(psi2, psi, 'repeating the state evaluation gives another state', 1e-12, 'state')
        # the same array object with new contents is another unitary
        W = np.array(U, dtype=complex)
        m.close(m.call('state from unitary', sq, unitary=W), U[:, 0], 'state of a copied unitary', 1e-10, 'state')
        W[...] = ref.haar(rng, dim)
        k = int(rng.integers(len(obs)))
        m.close(m.call('state from unitary', sq, unitary=W), W[:, 0], 'state is not the first column of the updated unitary', 1e-10, 'state', stop=True)
        m.close(float(m.call('expectation value', eq, unitary=W, observable=obs[k])), ref.energy(W, mats[k]), 'expectation value ignores the updated unitary', 1e-8, 'expval')
    m.key(n, str(case['obs']), kind)
    m.sample(n=n, obs=case['obs'], coeffs=c, energy=total)


def reject(m):
    dev = build.device(2)
    sq = qml.QNode(circuit_tools.circuit_state_from_unitary, dev)
    eq = qml.QNode(circuit_tools.circuit_observable_from_unitary, dev)
    U = np.eye(4, dtype=complex)
    m.rejects('a state evaluation without unitary', sq)
    m.rejects('an expectation value without unitary', eq, observable=qml.PauliX(0))
    m.rejects('an expectation value without observable', eq, unitary=U)
    m.rejects('an expectation value without arguments', eq)
    m.rejects('a direct state evaluation without unitary', circuit_tools.circuit_state_from_unitary)
    m.rejects('a direct expectation value without observable', circuit_tools.circuit_observable_from_unitary, unitary=U)
    m.check(dev.num_executions == 0, 'a rejected evaluation was executed', 'noexec')
    m.key('reject')
