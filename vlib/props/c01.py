import itertools
import numpy as np
import pennylane as qml
from .. import ref, gen, build
from ..mon import snap
from oranssi import circuit_tools, opt_tools, optimizers

RULE = ('one evaluation = one promoted operator compared with an independently assembled matrix (or one '
        'rejection of an invalid request); distinct = (n, ordered wires, operator kind); non-trivial when the '
        'operator is not the identity. All ordered wire tuples with k<=3, n<=5 (quick) / k<=4, n<=6 (thorough).')
NEED = {'embed': 300, 'online': 100, 'rejections': 20}
KINDS = ['complex', 'real', 'unitary', 'hermitian', 'pauli', 'rank1', 'fortran', 'int', 'tiny', 'huge', 'strided', 'readonly', 'diag', 'zero', 'identity']


def make(kind, k, rng):
    d = 2 ** k
    if kind == 'real':
        return rng.normal(size=(d, d))
    if kind == 'unitary':
        return ref.haar(rng, d)
    if kind == 'hermitian':
        a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
        return a + a.conj().T
    if kind == 'pauli':
        return ref.kron(*[ref.PAULI['XYZ'[rng.integers(3)]] for _ in range(k)])
    if kind == 'rank1':
        a = np.zeros((d, d), dtype=complex)
        a[rng.integers(d), rng.integers(d)] = 1
        return a
    if kind == 'int':
        return rng.integers(-3, 4, size=(d, d))
    if kind == 'diag':
        return np.diag(rng.normal(size=d) + 1j * rng.normal(size=d))
    if kind == 'zero':
        return np.zeros((d, d))
    if kind == 'identity':
        return np.eye(d)
    a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    if kind == 'strided':
        return (rng.normal(size=(2 * d, 2 * d)) + 1j * rng.normal(size=(2 * d, 2 * d)))[::2, ::2].T
    if kind == 'readonly':
        a.setflags(write=False)
        return a
    if kind in ('tiny', 'huge'):
        return a * {'tiny': 1e-10, 'huge': 1e10}[kind]
    return np.asfortranarray(a) if kind == 'fortran' else a


def cases(rng, tier):
    out = []
    nmax, kmax = (5, 3) if tier == 'quick' else (6, 4)
    for n in range(1, nmax + 1):
        tuples = [w for k in range(1, min(n, kmax) + 1) for w in itertools.permutations(range(n), k)]
        if n > kmax:
            for _ in range(30):
                k = int(rng.integers(kmax + 1, n + 1))
                tuples.append(tuple(gen.wires(rng, n, k)))
        rng.shuffle(tuples)
        for i in range(0, len(tuples), 12):
            out.append({'kind': 'embed', 'n': n, 'wires': [list(map(int, w)) for w in tuples[i:i + 12]], 'seed': gen.sub(rng)})
    for _ in range(40 if tier == 'quick' else 400):      # larger registers, any number of wires up to all of them
        n = int(rng.choice([6, 7]))
        out.append({'kind': 'embed', 'n': n, 'wires': [gen.wires(rng, n, int(rng.integers(1, n + 1))) for _ in range(2)], 'seed': gen.sub(rng)})
    for _ in range(24 if tier == 'quick' else 160):
        n = int(rng.choice([8, 9, 10], p=[0.5, 0.3, 0.2]))
        out.append({'kind': 'wide', 'n': n, 'wires': gen.wires(rng, n, int(rng.integers(1, 6))), 'seed': gen.sub(rng)})
    for n in (2, 3, 4, 5) * (3 if tier == 'quick' else 12):
        out.append({'kind': 'online', 'n': n, 'obs': gen.observables(rng, n, 1, 4), 'circ': gen.any_circuit(rng, n), 'seed': gen.sub(rng)})
    out.append({'kind': 'reject'})
    return out


def run(case, m):
    {'embed': embed, 'wide': wide, 'online': online, 'reject': reject}[case['kind']](case, m)


def embed(case, m):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    for w in case['wires']:
        k = len(w)
        for kind in (KINDS[rng.integers(len(KINDS))], KINDS[rng.integers(len(KINDS))], 'complex'):
            a = make(kind, k, rng)
            before = snap(a)
            ww = [tuple(w), list(w), qml.wires.Wires(w), np.array(w), tuple(np.int64(x) for x in w)][rng.integers(5)]
            A = m.call('promoting a %d-qubit operator to wires %s of %d' % (k, w, n), circuit_tools.get_full_operator, a, ww, n)
            size = max(float(np.max(np.abs(a))), 1e-30)
            m.close(A, ref.embed(a, w, n), 'promoted operator differs from its action on the wires', 1e-12 * size, 'embed', wires=w, n=n, op=a)
            m.check(snap(a) == before, 'promotion modified the operator it was given', 'purity', wires=w)
            m.key(n, tuple(w), kind)
        b = make('complex', k, rng)
        B = m.call('promoting', circuit_tools.get_full_operator, b, tuple(w), n)
        AB = m.call('promoting', circuit_tools.get_full_operator, a @ b, tuple(w), n)
        Ad = m.call('promoting', circuit_tools.get_full_operator, a.conj().T, tuple(w), n)
        L = m.call('promoting', circuit_tools.get_full_operator, 2 * a - 3j * b, tuple(w), n)
        m.close(AB, A @ B, 'promotion does not preserve products', 1e-8, 'algebra', wires=w, n=n)
        m.close(Ad, np.asarray(A).conj().T, 'promotion does not preserve adjoints', 1e-10, 'algebra', wires=w, n=n)
        m.close(L, 2 * A - 3j * B, 'promotion is not linear', 1e-9, 'algebra', wires=w, n=n)
        psi = ref.state_from_seed(int(rng.integers(1 << 30)), n)
        m.close(A @ psi, ref.apply_gate(psi, np.asarray(a, dtype=complex), list(w), n), 'promoted operator acts on the wrong qubits', 1e-9, 'action', wires=w, n=n)
        # the same array object with other contents, other wires or another register is another request
        keep = np.array(A)
        a[...] = rng.normal(size=a.shape)
        w2 = gen.wires(rng, n, k)
        for ww, nn in ((list(w), n), (w2, n), (list(w), n + 1)) if n < 6 else ((w2, n),):
            X = m.call('promoting', circuit_tools.get_full_operator, a, tuple(ww), nn)
            m.close(X, ref.embed(a, ww, nn), 'promotion returns a stale or shared result', 1e-10, 'embed', wires=ww, n=nn)
        m.close(A, keep, 'an earlier promoted operator changed', 0.0, 'purity')
        # a promoted operator belongs to the caller: writing into it reaches no later promotion
        X[...] = 5
        X = m.call('promoting', circuit_tools.get_full_operator, a, tuple(ww), nn)
        m.close(X, ref.embed(a, ww, nn), 'a promoted operator is shared with a later promotion', 1e-10, 'embed', wires=ww, n=nn)
    m.sample(n=n, wires=case['wires'][0], op=a, full_shape=list(A.shape))


def wide(case, m):
    """Large registers: the promoted operator is probed with random states."""
    rng = np.random.default_rng(case['seed'])
    n, w = case['n'], case['wires']
    k = len(w)
    a = make('complex', k, rng)
    A = np.asarray(m.call('promoting a %d-qubit operator to wires %s of %d' % (k, w, n), circuit_tools.get_full_operator, a, tuple(w), n))
    m.check(A.shape == (2 ** n, 2 ** n), 'shape of the promoted operator', 'embed', stop=True, shape=A.shape)
    for _ in range(3):
        psi = ref.state_from_seed(int(rng.integers(1 << 30)), n)
        m.close(A @ psi, ref.apply_gate(psi, a, list(w), n), 'promoted operator acts on the wrong qubits', 1e-9, 'action', wires=w, n=n)
    m.close(np.sum(np.abs(A) ** 2), np.sum(np.abs(a) ** 2) * 2 ** (n - k), 'promoted operator has other entries', 1e-6 * 2 ** n, 'embed')
    m.key('wide', n, tuple(w))


def online(case, m):
    """Contract attached to the function while layers and optimizers use it."""
    n = case['n']
    orig = circuit_tools.get_full_operator

    def contract(*args, **kw):
        if len(args) + len(kw) != 3 or not set(kw) <= {'op', 'wires', 'nqubits'}:
            return orig(*args, **kw)                # called in a way this contract does not know
        op, wires, nqubits = [kw.get(k, args[i] if i < len(args) else None) for i, k in enumerate(('op', 'wires', 'nqubits'))]
        before = snap(np.asarray(op))
        r = orig(*args, **kw)
        w = [int(x) for x in wires]
        m.close(r, ref.embed(np.asarray(op), w, nqubits), 'promoted operator differs from its action on the wires (online)', 1e-10, 'online', wires=w, n=nqubits)
        m.check(snap(np.asarray(op)) == before, 'promotion modified its operator (online)', 'purity')
        m.key('online', nqubits, tuple(w))
        return r

    mods = [mod for mod in (circuit_tools, opt_tools, optimizers) if getattr(mod, 'get_full_operator', None) is orig]
    for mod in mods:
        mod.get_full_operator = contract
    try:
        dev = build.device(n)
        obs = build.observables(case['obs'])
        m.call('exact optimizer', optimizers.exact_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, nsteps=1)
        layers = [opt_tools.LocalLieAlgebraLayer(dev, obs, 1), opt_tools.SquaredLieAlgebraLayer(dev, obs)]
        if n >= 3:
            layers.append(opt_tools.SU8_AlgebraLayer(dev, obs))
        m.call('layered optimizer', optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, layers=layers, nsteps=3)
        m.call('Hamiltonian', circuit_tools.get_hamiltonian_matrix, n, obs)
    finally:
        for mod in mods:
            mod.get_full_operator = orig


def reject(case, m):
    f = circuit_tools.get_full_operator
    for n in range(1, 5):
        for w in ([n], [n + 1], [0, n], [n, 0], [n + 5], [-1], [-n], [0, -1], [-1, 0], [-n - 1]):
            k = len(w)
            m.rejects('a wire outside the register (wires %s, %d qubits)' % (w, n), f, np.eye(2 ** k, dtype=complex), tuple(w), n)
            m.key('reject', n, tuple(w))
    for n, w, k in [(2, [0], 2), (3, [0, 1], 1), (3, [0, 1, 2], 2), (4, [3], 3), (2, [0, 1], 1), (4, [0, 1, 2], 4)]:
        m.rejects('a %d-qubit operator on wires %s' % (k, w), f, np.eye(2 ** k, dtype=complex), tuple(w), n)
        m.key('reject-size', n, tuple(w), k)
    for shape in ((3, 3), (5, 5), (2, 4), (4, 2), (6, 6), (1, 1), (2,), (12, 12), (2, 2, 2, 2, 2, 2)):
        for n, w in ((3, (0,)), (3, (1, 2)), (4, (2, 0, 1))):
            if shape != (2 ** len(w),) * 2:
                m.rejects('an array of shape %s on wires %s' % (shape, w), f, np.ones(shape, dtype=complex), w, n)
                m.key('reject-shape', shape, w)
