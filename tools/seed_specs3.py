SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'

S('s71', 'C01', [(CT, "    op = op.reshape([2] * 2 * len(wires))\n",
"    op = op.reshape([2] * 2 * len(wires), order='A')  # keep the memory layout\n")],
'an operator stored in Fortran order, for instance the adjoint of another operator',
'the indices of such an operator are scrambled', '''
from oranssi.circuit_tools import get_full_operator
rng = np.random.RandomState(0)
A = rng.randn(4, 4) + 1j * rng.randn(4, 4)
assert np.allclose(get_full_operator(A.conj().T, (0, 1), 2), A.conj().T)
assert np.allclose(get_full_operator(A, (1, 0), 3).conj().T, get_full_operator(A.conj().T, (1, 0), 3))
''')

S('s72', 'C02', [(CT, """        circuit_as_numpy_ops.append(op.matrix)
""", """        if op.num_params == 0 and len(op.wires) <= 3:
            # fixed gates always have the same matrix
            circuit_as_numpy_ops.append(fixed_gates.setdefault(op.base_name, op.matrix))
        else:
            circuit_as_numpy_ops.append(op.matrix)
"""), (CT, """    circuit_as_numpy_ops = []
    circuit_as_numpy_wires = []
    ops""", """    circuit_as_numpy_ops = []
    circuit_as_numpy_wires = []
    fixed_gates = {}
    ops""")], 'a circuit that holds both a fixed gate and its inverse', 'the second one is extracted with the matrix of the first', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.Hadamard(wires=0)
    qml.T(wires=0)
    qml.Hadamard(wires=0)
    qml.T(wires=0).inv()
    return qml.state()
ops, wires = get_ops_from_qnode(circuit, [], dev)
psi = np.eye(2)[0]
for o in ops:
    psi = o @ psi
assert np.allclose(psi, qml.QNode(circuit, dev)([]))
''')

S('s73', 'C03', [(CT, """    for i, o in enumerate(observables):
        hamiltonian += coeffs[i] * get_full_operator(o.matrix, o.wires, nqubits)
""", """    terms = {}
    for i, o in enumerate(observables):
        # collect the coefficients of repeated observables
        key = (str(o.name), frozenset(o.wires.labels)) if len(o.wires) < 3 else i
        first, c = terms.get(key, (o, 0))
        terms[key] = (first, c + coeffs[i])
    for o, c in terms.values():
        hamiltonian += c * get_full_operator(o.matrix, o.wires, nqubits)
""")], 'two observables of the same kind on the same pair of qubits in opposite order (X0 Y1 next to X1 Y0)', 'they are merged into one', '''
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]])
H = get_hamiltonian_matrix(2, [qml.PauliX(0) @ qml.PauliY(1), qml.PauliX(1) @ qml.PauliY(0)], [0.3, 0.9])
assert np.allclose(H, 0.3 * np.kron(X, Y) + 0.9 * np.kron(Y, X))
''')

S('s74', 'C04', [(UT, """    N = int(np.log2(N))
    for comb in it.product(list(range(len(paulis))), repeat=N):
        op = 1
        for n in range(N):
            op = np.kron(op, paulis[comb[n]])
        operators.append(op)
""", """    N = int(np.log2(N))
    half = N // 2 if N > 3 else 0
    blocks = {}
    for comb in it.product(list(range(len(paulis))), repeat=N):
        # the first half of the word changes slowly, so that its matrix can be reused
        if half and comb[:half] in blocks:
            op = blocks[comb[:half]]
        else:
            op = 1
            for n in range(half):
                op = np.kron(op, paulis[comb[n]])
            blocks[comb[:half]] = op
        rest = comb[half:] if half < 3 or N % 2 == 0 else comb[:half - 1:-1]
        for c in rest:
            op = np.kron(op, paulis[c])
        operators.append(op)
""")], 'a register of seven qubits', 'the second half of the word is multiplied out in reverse order', '''
import oranssi.utils as ut
import itertools as it
# the list of all words on seven qubits is large, look at the first few of them only
class Few(object):
    def __init__(self, it):
        self.it = it
    def __getattr__(self, name):
        return getattr(self.it, name)
    def product(self, *args, **kwargs):
        return self.it.islice(self.it.product(*args, **kwargs), 30)
ut.it = Few(it)
ops, names = ut.get_su_n_operators(2 ** 7, return_names=True)
P = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}
for o, n in zip(ops, names):
    m = 1
    for c in n:
        m = np.kron(m, P[c])
    assert np.allclose(o, m), n
''')

S('s75', 'C05', [(OT, """            self.paulis = get_su_4_operators(return_names=False)
            self.directions = get_su_4_operators(return_names=True)[1]

        self.reset_directions()

        self.paulis = dict(zip(self.directions, self.paulis))

        self.directions_left = copy.copy(self.directions)
        self.qubits_left = np.zeros(self.nqubits, dtype=int)
        self.full_paulis = {}
""", """            self.paulis = get_su_4_operators(return_names=False)
            self.directions = get_su_4_operators(return_names=True)[1]

        self.reset_directions()

        self.paulis = dict(zip(self.directions, self.paulis))

        self.directions_left = copy.copy(self.directions)
        self.qubits_left = np.zeros(self.nqubits, dtype=int)
        # algebras on the same register share their matrices
        self.full_paulis = AlgebraSU4.matrices.setdefault((nqubits, add_su2), {})
"""), (OT, "class AlgebraSU4():\n", "class AlgebraSU4():\n    matrices = {}\n")],
'an algebra that made random draws, followed by a fresh one of the same size that is enumerated',
'the fresh algebra also contains the randomly drawn generators', '''
from oranssi.opt_tools import AlgebraSU4
np.random.seed(0)
a = AlgebraSU4(4, add_su2=True)
for _ in range(60):
    a.get_random_direction_and_qubits()
b = AlgebraSU4(4, add_su2=True)
b.get_all_directions_and_qubits()
assert len(b.full_paulis) == 3 * 4 + 9 * 6
''')

S('s76', 'C06', [(CT, """    for p, n in zip(paulis, names):
        omegas[n] = 0
        for obs in observables_full:
""", """    supports = [set(w for t in getattr(o, 'obs', [o]) for w in t.wires.labels if t.name != 'Identity')
                for o in observables]
    for p, n in zip(paulis, names):
        omegas[n] = 0
        for obs, support in zip(observables_full, supports):
            if len(support) > 1 and sum(n[w] != 'I' for w in support) == 0 and len(support) == n.count('I'):
                continue  # no common qubit
            if len(support) > 2 and sum(n[w] != 'I' for w in sorted(support)[:3]) == 0:
                continue
""")], 'an observable on four qubits and a Pauli word on its last one only', 'the gradient of that word is reported as zero', '''
import pennylane as qml
from oranssi.circuit_tools import get_all_su_n_directions
dev = qml.device('default.qubit', wires=4)
obs = [qml.PauliX(0) @ qml.PauliX(1) @ qml.PauliX(2) @ qml.PauliX(3)]
h = np.array([1, 1]) / np.sqrt(2)
y = np.array([1, 1j]) / np.sqrt(2)
psi = np.kron(np.kron(np.kron(h, h), h), y)
U = np.linalg.qr(np.column_stack([psi, np.eye(16)[:, :15] + 0j]))[0]
d = get_all_su_n_directions(U, obs, dev)
assert abs(abs(d['IIIZ']) - 2 / 16) < 1e-9, d['IIIZ']
''')

S('s77', 'C07', [(CT, """    return gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (
""", """    if np.isclose(np.trace(rho @ rho), np.trace(rho) ** 2, atol=1e-4):
        # pure state, shift the state vector only
        w, v = np.linalg.eigh(rho)
        plus, minus = gate(np.pi / 2) @ v[:, -1:], gate(-np.pi / 2) @ v[:, -1:]
        return w[-1] * (plus @ plus.conj().T - minus @ minus.conj().T)
    return gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (
""")], 'a nearly pure mixed state', 'the weight outside the dominant state is dropped', '''
from oranssi.circuit_tools import param_shift_comm
import scipy.linalg as ssla
O = np.kron(np.array([[0, 1], [1, 0]]), np.diag([1, -1])).astype(complex)
psi = np.array([0.5, 0.5j, -0.5, 0.5])
rho = (1 - 2e-5) * np.outer(psi, psi.conj()) + 2e-5 * np.diag([1., 0, 0, 0])
r = param_shift_comm(rho, lambda t: ssla.expm(-1j * t / 2 * O))
assert np.max(np.abs(r - (-1j) * (O @ rho - rho @ O))) < 1e-9 or np.max(np.abs(r - 1j * (rho @ O - O @ rho))) < 1e-9
''')

S('s78', 'C08', [(OP, """        for o in observables:
            # get rho from the circuit
            phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
            rho = np.outer(phi, phi.conj().T)
""", """        moved = None
        for o in observables:
            # get rho from the circuit, unless the last update did not touch these qubits
            if moved is None or len(o.wires) < 3 or set(moved) & set(o.wires.labels):
                phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
                rho = np.outer(phi, phi.conj().T)
            moved = o.wires.labels
""")], 'a three-qubit observable that follows one on other qubits', 'the state is not re-evaluated before the observable', '''
import pennylane as qml, scipy.linalg as ssla
from oranssi.optimizers import exact_lie_optimizer
from oranssi.circuit_tools import get_full_operator
dev = qml.device('default.qubit', wires=4)
obs = [qml.PauliZ(3), qml.PauliX(0) @ qml.PauliZ(1) @ qml.PauliY(2)]
def circuit(params, **kwargs):
    for i in range(4):
        qml.RX(0.4 + i, wires=i)
        qml.RZ(0.7 * i + 0.2, wires=i)
    for i in range(3):
        qml.CNOT(wires=[i, i + 1])
        qml.RY(0.9 - i, wires=i + 1)
    return qml.state()
_, states = exact_lie_optimizer(circuit, [], obs, dev, eta=0.5, nsteps=2, return_state=True)
psi = states[0]
for k in range(2):
    for o in obs:
        O = get_full_operator(o.matrix, o.wires, 4)
        rho = np.outer(psi, psi.conj())
        psi = ssla.expm(0.25 * (rho @ O - O @ rho)) @ psi
    assert np.max(np.abs(psi - states[k + 1])) < 1e-8
''')

S('s79', 'C09', [(OP, """            # avoid matrix exponential by diagonalizing
            S, V = np.linalg.eigh(H)
            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)
            # update the circuit unitary
            circuit_unitary = U_riemann_exact @ circuit_unitary
        if return_state:
""", """            # avoid matrix exponential by diagonalizing
            S, V = np.linalg.eigh(H)
            # anneal the step size of long runs
            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / (2 + max(0, step - 60)) * S)) @ V.conj().T)
            # update the circuit unitary
            circuit_unitary = U_riemann_exact @ circuit_unitary
        if return_state:
""")], 'more than sixty steps', 'long runs slow down and do not follow a -> a + eta sin(a) any more', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RX(0.03, wires=0)
    return qml.state()
costs = exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, eta=0.03, nsteps=110, tol=0.0)
a = 0.03
for c in costs:
    assert abs(c - np.cos(a)) < 1e-6
    a = a + 0.03 * np.sin(a)
''')

S('s80', 'C10', [(OP, """                    U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)
                    # update the circuit unitary
                    circuit_unitary = U_riemann_exact @ circuit_unitary
                else:
                    print(
                        f'Cost difference between steps < {tol}, stopping early at step {step}...')
                    break
    print(f"Final cost = {cost_exact[-1]}")
    returnables = [cost_exact, states, np.array(omegas)""", """                    U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)
                    # update the circuit unitary
                    circuit_unitary[:] = U_riemann_exact @ circuit_unitary
                else:
                    print(
                        f'Cost difference between steps < {tol}, stopping early at step {step}...')
                    break
    print(f"Final cost = {cost_exact[-1]}")
    returnables = [cost_exact, states, np.array(omegas)""")], 'a perturbed run that returns its unitaries', 'the unitary recorded for a perturbed step is overwritten', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliZ(0), qml.PauliZ(1)]
def circuit(params, **kwargs):
    qml.RX(0.4, wires=0)
    qml.RX(0.9, wires=1)
    return qml.state()
np.random.seed(3)
costs, states, us, pert = approximate_lie_optimizer(circuit, [], obs, dev, layers=[LocalLieAlgebraLayer(dev, obs, 1, eta=0.5)],
    eta=0.5, nsteps=14, tol=10.0, perturb=True, return_state=True, return_unitary=True, return_perturbations=True)
assert pert
for s, u in zip(states, us):
    assert np.max(np.abs(s - u[:, 0])) < 1e-9
''')

S('s81', 'C11', [(OT, """        P, _, Q = np.linalg.svd(U)
        return P @ Q
""", """        P, s, Q = np.linalg.svd(U)
        return P @ np.diag(s / np.maximum(s, 1e-6)) @ Q
""")], 'projecting an invertible matrix with a very small singular value', 'the result is not unitary', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
l = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)
U = np.diag([1., 2., 1e-7, 1e9]).astype(complex)
P = l._project_onto_unitary(U)
assert np.max(np.abs(P @ P.conj().T - np.eye(4))) < 1e-9
''')

S('s82', 'C12', [(OT, """                    for j, pauli in enumerate(full_paulis):
                        omegas.append(phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi)
""", """                    for j, pauli in enumerate(full_paulis):
                        omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                        # the gradient of a Pauli word is at most two
                        omegas.append(omega / max(1., abs(omega[0, 0]) / 2))
""")], 'an observable with an eigenvalue larger than one (a Hermitian matrix)', 'large gradients are clipped', '''
import pennylane as qml, scipy.linalg as ssla
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
obs = [qml.Hermitian(np.array([[3., 1], [1, -2.]]), wires=[0])]
eta = 0.3
l = LocalLieAlgebraLayer(dev, obs, 1, eta=eta, directions=['Y'])
U = ssla.expm(-0.4j * np.array([[0, -1j], [1j, 0]]))
V = l(U)
Y = np.array([[0, -1j], [1j, 0]])
O = np.array([[3., 1], [1, -2.]])
phi = U[:, :1]
w = (phi.conj().T @ (Y @ O - O @ Y) @ phi)[0, 0]
assert np.max(np.abs(V - ssla.expm(-eta / 2 * w * Y) @ U)) < 1e-9
''')

S('s83', 'C13', [(OT, """                qubits = np.random.permutation(idx)[:2]
        else:
            if any(len(d) == 1 for d in self.directions_left):
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]
            else:
                self.reset_directions(su2_only=True)
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]

            qubits = np.random.permutation(idx)[:1]
        self.qubits_left[qubits] = 1
        self.add_pauli(direction, qubits)
        self.directions_left.remove(direction)
        return direction, qubits

    def get_all_directions_and_qubits(self):
        \"\"\"
        Construct all

        Returns:

        \"\"\"
        idx = np.where(self.qubits_left == 0)[0].tolist()
        # allow SU(4) samples
        if not idx:
            self.reset_qubits()
            idx = np.where(self.qubits_left == 0)[0].tolist()

        if len(idx) > 1:
            qubits = [(q,) for q in idx] + list(it.combinations(idx, r=2))
        else:
            qubits = [(q,) for q in idx]
        for direction in self.directions:
            for q in qubits:
                if len(q) == len(direction):
                    self.add_pauli(direction, q)

    def add_pauli(self, direction, qubits):
        if (direction, *qubits) not in self.full_paulis.keys():
            self.full_paulis[(direction, *qubits)] = get_full_operator(self.paulis[direction],
                                                                       qubits, self.nqubits)

    def reset_directions(self, su2_only=False):
        if su2_only:
            self.directions_left = self.directions_left + get_su_2_operators(return_names=True)[1]
""", """                qubits = np.random.permutation(idx)[:2]
        else:
            if any(len(d) == 1 for d in self.directions_left):
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]
            else:
                self.reset_directions(su2_only=True)
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]

            qubits = np.random.permutation(idx)[:1]
        self.qubits_left[qubits] = 1
        self.add_pauli(direction, qubits)
        self.directions_left.remove(direction)
        return direction, qubits

    def get_all_directions_and_qubits(self):
        \"\"\"
        Construct all

        Returns:

        \"\"\"
        idx = np.where(self.qubits_left == 0)[0].tolist()
        # allow SU(4) samples
        if not idx:
            self.reset_qubits()
            idx = np.where(self.qubits_left == 0)[0].tolist()

        if len(idx) > 1:
            qubits = [(q,) for q in idx] + list(it.combinations(idx, r=2))
        else:
            qubits = [(q,) for q in idx]
        for direction in self.directions:
            for q in qubits:
                if len(q) == len(direction):
                    self.add_pauli(direction, q)

    def add_pauli(self, direction, qubits):
        # generators on the same qubits are the same up to the order of the qubits
        key = (direction, *sorted(qubits)) if direction[0] == direction[-1] else (direction, *qubits)
        known = self.full_paulis.get(key, None)
        if (direction, *qubits) not in self.full_paulis.keys():
            self.full_paulis[(direction, *qubits)] = known if known is not None else get_full_operator(
                self.paulis[direction], qubits, self.nqubits)

    def reset_directions(self, su2_only=False):
        if su2_only and len(self.directions_left) < 5:
            self.directions_left = get_su_2_operators(return_names=True)[1]
        elif su2_only:
            self.directions_left = self.directions_left + get_su_2_operators(return_names=True)[1]
""")], 'a last remaining qubit when no one-qubit and fewer than five two-qubit directions are left', 'the two-qubit directions left are forgotten, so others are drawn again before them', '''
from oranssi.opt_tools import AlgebraSU4
bad = 0
for seed in range(40):
    np.random.seed(seed)
    a = AlgebraSU4(3, add_su2=True)
    seen = []
    for _ in range(200):
        d, q = a.get_random_direction_and_qubits()
        if len(d) == 2:
            if d in seen:
                bad += 1
            seen.append(d)
            if len(seen) == 9:
                seen = []
assert bad == 0, bad
''')

S('s84', 'C14', [(OT, """    eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
    U_riemann""", """    eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
    # without curvature or slope there is nothing to do
    if np.isclose(2 * H_0, H_p + H_m, atol=1e-4) and np.isclose(H_p, H_m, atol=1e-4):
        eta = 0.
    U_riemann""")], 'a curve with an amplitude below 1e-4, close to a stationary state', 'the layer does not move to the minimum of the curve', '''
import pennylane as qml, scipy.linalg as ssla
from oranssi.opt_tools import SU8_AlgebraLayer
dev = qml.device('default.qubit', wires=3)
obs = [qml.Hermitian(1e-5 * np.array([[1., 0], [0, -1.]]), wires=[0])]
l = SU8_AlgebraLayer(dev, obs)
X = np.kron(np.array([[0, 1], [1, 0]]), np.eye(4))
U = ssla.expm(-0.4j * X)
V = l(U)
Z = np.kron(np.diag([1, -1]), np.eye(4))
e = lambda W: (W[:, 0].conj() @ Z @ W[:, 0]).real
assert e(V) < -1 + 1e-6, (e(U), e(V))
''')

S('s85', 'C15', [(OT, """            return circuit_unitary, [((direction, *edge), params[-1][i]) for i, edge in
                                     enumerate(filtered_edges)]
""", """            return circuit_unitary, [((direction, *edge), params[-1][i]) for i, edge in
                                     enumerate(filtered_edges) if abs(params[-1][i]) > 0.02]
""")], 'a gate whose optimal angle is nearly zero', 'the gate is applied, but not reported', '''
import pennylane as qml, scipy.linalg as ssla
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
from oranssi.circuit_tools import get_full_operator
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliZ(0), qml.PauliZ(1)]
l = SquaredLieAlgebraLayer(dev, obs)
X = np.array([[0, 1], [1, 0]])
P = {'X': X, 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}
for t in (0., 1e-3, 0.01, 0.05):
    U = np.kron(X, X) @ ssla.expm(-1j * t * np.kron(X, np.eye(2))).astype(complex)
    V, gates = l(U, commute=True, optimizer=parameter_shift_optimizer)
    W = U
    for (word, *wires), a in gates:
        op = P[word[0]] if len(word) == 1 else np.kron(P[word[0]], P[word[1]])
        W = ssla.expm(-0.5j * a * get_full_operator(op, tuple(wires), 2)) @ W
    assert np.max(np.abs(W - V)) < 1e-9
''')

S('s86', 'C16', [(OT, """            if direction != self.previous_direction:
                if len(direction) == 1:
""", """            if direction != self.previous_direction or len(self.layers) % 4 == 3:
                if len(direction) == 1:
""")], 'the fourth layer of an ansatz, when the direction of the third still has the largest gradient', 'a direction is repeated in consecutive layers', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
from oranssi.optimizers import approximate_lie_optimizer
bad = 0
for s in range(6):
    rng = np.random.RandomState(s)
    dev = qml.device('default.qubit', wires=2)
    A = rng.randn(4, 4) + 1j * rng.randn(4, 4)
    obs = [qml.Hermitian(A + A.conj().T, wires=[0, 1])]
    l = AdaptVQELayer(dev, obs)
    def circuit(params, **kwargs):
        qml.Hadamard(wires=0)
        qml.Hadamard(wires=1)
        return qml.state()
    approximate_lie_optimizer(circuit, [], obs, dev, layers=[l], nsteps=8, tol=None)
    bad += sum(a[0] == b[0] for a, b in zip(l.layers, l.layers[1:]))
assert bad == 0, bad
''')

S('s87', 'C17', [(OT, """            self.current_pauli = k_max
            self.previous_eta = eta

            self.counter += 1
            if self.counter >= self.ratio[0]:
                self.counter = 0
                self.su_state = 'su8'
""", """            self.current_pauli = k_max
            # rotations by more than half a turn go the other way
            self.previous_eta = eta if eta > -np.pi else eta + 2 * np.pi

            self.counter += 1
            if self.counter >= self.ratio[0]:
                self.counter = 0
                self.su_state = 'su8'
""")], 'a line search that ends in an angle below -pi', 'the angle of the second phase is computed from another angle than the one used', '''
import pennylane as qml, scipy.linalg as ssla
import oranssi.opt_tools as ot
rng = np.random.RandomState(1)
bad = tot = 0
for t in range(12):
    dev = qml.device('default.qubit', wires=3)
    A = rng.randn(8, 8) + 1j * rng.randn(8, 8)
    H = A + A.conj().T
    obs = [qml.Hermitian(H, wires=[0, 1, 2])]
    l = ot.ZassenhausLayer(dev, obs, eta=0.1)
    U = np.linalg.qr(rng.randn(8, 8) + 1j * rng.randn(8, 8))[0]
    angle = []
    orig = ot.rotosolve
    def spy(*a):
        r = orig(*a)
        angle.append(r[1])
        return r
    ot.rotosolve = spy
    V = l(U)
    ot.rotosolve = orig
    W = l(V)
    G = W @ V.conj().T
    if angle[0] > -np.pi or np.allclose(G, np.eye(8)):
        continue
    psi = V[:, 0]
    grad = lambda P: (psi.conj() @ (P @ H - H @ P) @ psi).imag
    # angle of the rotation (-i eta wB / 8) B
    c = np.trace(G).real / 8
    theta = np.arccos(np.clip(c, -1, 1))
    cands = [abs(0.1 * 2 * grad(P) / angle[0] / 2 / 8) for P in l.lastates[2].full_paulis.values()]
    tot += 1
    if not any(abs(theta - x) < 1e-7 for x in cands):
        bad += 1
assert tot > 0 and bad == 0, (bad, tot)
''')

S('s88', 'C18', [(OP, "    lie_layers = it.cycle(layers)\n", "    lie_layers = it.cycle(dict.fromkeys(layers))\n")],
'a layer list that holds the same layer object twice', 'the repeated layer is applied once per round only', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliZ(0), qml.PauliX(0) @ qml.PauliX(1)]
def circuit(params, **kwargs):
    qml.RX(0.4, wires=0)
    qml.RX(0.9, wires=1)
    return qml.state()
a = LocalLieAlgebraLayer(dev, obs, 1, eta=0.5)
b = LocalLieAlgebraLayer(dev, obs, 2, eta=0.5)
costs, us = approximate_lie_optimizer(circuit, [], obs, dev, layers=[a, a, b], nsteps=3, return_unitary=True)
assert np.allclose(us[2], a(us[1]))
''')

S('s89', 'C19', [(OP, """        params, cost = opt.step_and_cost(cost_fn, params)
""", """        if all(isinstance(p, float) for p in params) and len(params) > 2:
            # shift the parameters by hand, which is faster than differentiating the circuit
            grads = []
            for i in range(len(params)):
                plus, minus = list(params), list(params)
                plus[i] += np.pi / 2
                minus[i] -= np.pi / 2
                grads.append(0.5 * (cost_fn(plus) - cost_fn(minus)))
            params = [float(p - eta * g) for p, g in zip(params, grads)]
        else:
            params, cost = opt.step_and_cost(cost_fn, params)
""")], 'three or more parameters, one of them used twice, scaled or in a controlled rotation', 'the two-term rule is applied where it does not hold', '''
import pennylane as qml
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliZ(0), qml.PauliZ(1)]
def circuit(params, **kwargs):
    qml.RX(params[0], wires=0)
    qml.RX(params[0], wires=1)
    qml.CRY(params[1], wires=[0, 1])
    qml.RY(params[2], wires=0)
costs, ps = parameter_shift_optimizer(circuit, [0.3, 0.8, 0.4], obs, dev, eta=0.1, nsteps=1, return_params=True)
H = qml.Hamiltonian([1., 1.], obs)
f = qml.ExpvalCost(circuit, H, dev)
g = [(f([0.3 + 1e-5 * (i == j) for j in range(1)] + [0.8, 0.4]) - f([0.3 - 1e-5, 0.8, 0.4])) / 2e-5 for i in range(1)]
assert abs((ps[0][0] - ps[1][0]) / 0.1 - g[0]) < 1e-4
''')

S('s90', 'C20', [(OP, """        assert (isinstance(tol, float) & (0. <= tol <= np.inf)), \\
            f'`tol` must be an float between 0 and infinity, received {tol}'

    escape_tol""", """        assert isinstance(tol, float) and not tol < 0., \\
            f'`tol` must be an float between 0 and infinity, received {tol}'

    escape_tol""")], 'a tolerance that is not a number', 'it is accepted', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
obs = [qml.PauliZ(0)]
def circuit(params, **kwargs):
    qml.RX(0.4, wires=0)
    return qml.state()
try:
    approximate_lie_optimizer(circuit, [], obs, dev, layers=[LocalLieAlgebraLayer(dev, obs, 1)], nsteps=2, tol=float('nan'))
except AssertionError:
    pass
else:
    raise SystemExit(1)
''')

S('s91', 'C21', [(OT, """    def __call__(self, circuit_unitary, *args, **kwargs):
        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]
        for oi, obs in enumerate(self.observables):
            for full_paulis in self.full_paulis:
""", """    def __call__(self, circuit_unitary, *args, **kwargs):
        # the same unitary gives the same state
        if getattr(self, '_last', (None,))[0] is not circuit_unitary:
            self._last = (circuit_unitary, self.state_qnode(unitary=circuit_unitary)[:, np.newaxis])
        phi = self._last[1]
        for oi, obs in enumerate(self.observables):
            for full_paulis in self.full_paulis:
""")], 'an array that the caller changes in place between two calls of a layer', 'the second call uses the state of the first', '''
import pennylane as qml, scipy.linalg as ssla
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
obs = [qml.PauliZ(0)]
X = np.array([[0, 1], [1, 0]], dtype=complex)
l = LocalLieAlgebraLayer(dev, obs, 1, eta=0.5)
U = ssla.expm(-0.4j * X)
l(U)
U[:] = ssla.expm(-0.9j * X)
a = l(U)
b = LocalLieAlgebraLayer(dev, obs, 1, eta=0.5)(U)
assert np.max(np.abs(a - b)) < 1e-10
''')

S('s92', 'C22', [(PA, """        # A*B
        left_side = self * operator
        # B*A
        right_side = operator * self
        left_side.coeff = left_side.coeff - right_side.coeff
        return left_side
""", """        # A*B
        left_side = self * operator
        if len(set(self.locations) & set(operator.locations)) == 0:
            # operators on different sites commute
            left_side.coeff = 0 * left_side.coeff
            return left_side
        # B*A is minus or plus A*B
        right_side = operator * self
        if np.isclose(complex(left_side.coeff + right_side.coeff), 0) if not hasattr(left_side.coeff, 'args') else False:
            left_side.coeff = 2 * left_side.coeff
        else:
            left_side.coeff = left_side.coeff - right_side.coeff
        return left_side
""")], 'two commuting monomials on common sites whose coefficients multiply to less than 1e-8', 'the commutator does not vanish', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X', coeff=1e-5), Pauli(1, 'X')])
b = PauliMonomial([Pauli(0, 'Z', coeff=1e-5), Pauli(1, 'Z')])
assert a.commutes_with(b)
assert abs(a.commutator(b).coeff) == 0
''')

S('s93', 'C23', [(PA, """        for ps_i in self.pauli_sum:
            for ps_j in other.pauli_sum:
                new_pauli_sum.append(ps_i*ps_j)
        return PauliSum(new_pauli_sum)
""", """        same = self is other
        for i, ps_i in enumerate(self.pauli_sum):
            for j, ps_j in enumerate(other.pauli_sum):
                if same and i < j and not ps_i.commutes_with(ps_j):
                    continue  # anticommuting pairs cancel in a square
                if same and i > j and not ps_i.commutes_with(ps_j):
                    continue
                if same and i == j and ps_i.coeff.imag == 0:
                    # the square of a Pauli word is the identity
                    one = ps_i * ps_i
                    one.coeff = abs(one.coeff)
                    new_pauli_sum.append(one)
                    continue
                if same and i == j:
                    one = ps_i * ps_i
                    one.coeff = one.coeff.real if len(self.pauli_sum) < 4 else abs(one.coeff)
                    new_pauli_sum.append(one)
                    continue
                new_pauli_sum.append(ps_i*ps_j)
        return PauliSum(new_pauli_sum)
""")], 'a sum with complex coefficients that is multiplied by itself', 'the imaginary part (or the sign) of the square of a term is dropped', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
a = PauliSum([PauliMonomial([Pauli(0, 'X', coeff=1 + 1j)]), PauliMonomial([Pauli(0, 'Z', coeff=0.5j)])])
b = PauliSum([PauliMonomial([Pauli(0, 'X', coeff=1 + 1j)]), PauliMonomial([Pauli(0, 'Z', coeff=0.5j)])])
M = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
mat = lambda s: sum(m.coeff * M[m[0].gamma] for m in s.pauli_sum)
assert np.allclose(mat(a * a), mat(a) @ mat(a))
assert np.allclose(mat(a * b), mat(a) @ mat(b))
''')

S('s94', 'C24', [(PA, """        self_gammas = [m.gamma for m in self.monomial]
        other_gammas = [m.gamma for m in other.monomial]
        if self_gammas == other_gammas:
""", """        self_gammas = sum(m.gamma * 3 ** i for i, m in enumerate(reversed(self.monomial)))
        other_gammas = sum(m.gamma * 3 ** i for i, m in enumerate(reversed(other.monomial)))
        if self_gammas == other_gammas:
""")], 'words with an identity next to a Z (XI and IZ)', 'two different words count as the same group', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'I'), Pauli(1, 'Z')])
b = PauliMonomial([Pauli(0, 'X'), Pauli(1, 'I')])
assert a < b and not b < a
''')

S('s95', 'C25', [(CT, """    unrolled_edges = [item for sublist in edge_list for item in sublist]
    if len(unrolled_edges) == len(set(unrolled_edges)):
        return edge_list
""", """    unrolled_edges = [item for sublist in edge_list for item in sublist]
    # qubits are small integers, so a bit mask is a fast set
    used = 0
    for q in unrolled_edges:
        used |= 1 << (q % 64)
    if bin(used).count('1') == len(unrolled_edges) or len(unrolled_edges) == 2:
        return edge_list
    elif len(edge_list) > 40 and len(unrolled_edges) == len(set(unrolled_edges)):
        return edge_list[:40]
""")], 'more than forty disjoint edges', 'a disjoint input is not returned whole', '''
from oranssi.circuit_tools import get_commuting_set
edges = [(2 * i, 2 * i + 1) for i in range(60)]
assert sorted(get_commuting_set(edges)) == edges
''')

S('s96', 'C25', [(EC, """    print("Edge-coloring successful {}".format(checkEdgeColoring(G, D)))
    return checkEdgeColoring(G,D)
""", """    print("Edge-coloring successful {}".format(checkEdgeColoring(G, D)))
    return number_of_iterations <= iteration_limit
""")], 'a graph that cannot be coloured with D colours, or a colouring found in the last iteration', 'failure and success are reported wrongly', '''
import networkx as nx
from oranssi.edge_coloring import applyHeuristic, checkEdgeColoring
for t in range(60):
    G = nx.from_edgelist([(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2), (1, 3), (2, 4), (3, 0), (4, 1), (4, 5)])
    r = applyHeuristic(G, 5, 0, 1)
    ok = all(len(set(d['color'] for d in G[u].values())) == G.degree(u) for u in G)
    assert r == ok, (r, ok)
''')

S('s97', 'C26', [(PL, """    assert np.isclose(np.trace(rho), 1), '`rho` is not trace 1'
""", """    assert np.isclose(abs(np.trace(rho)), 1), '`rho` is not trace 1'
""")], 'a matrix of trace -1 or i', 'it is not rejected', '''
from oranssi.plot_utils import state_to_spherical
for f in (-1, 1j):
    try:
        state_to_spherical(f * np.diag([1., 0]))
    except AssertionError:
        pass
    else:
        raise SystemExit(1)
''')

S('s98', 'C27', [(PL, """    for uni in unitaries:
        omegas.append(get_all_su_n_directions(uni, observables, device))

    su4_names = []
    su8_names = []
    print(su8_names)
    stepstotal = len([om['XX'] for om in omegas])
    omegas_length_m = {0: np.zeros(stepstotal), 1: np.zeros(stepstotal),}
    omegas_su4 = []
    omegas_su8 = []
    for k in omegas[0].keys():
        if k.count('I') == 1:
            su4_names.append(k)
            omegas_length_m[1] += np.abs([om[k] for om in omegas])
            omegas_su4.append([om[k] for om in omegas])
        if k.count('I') == 0:
            su8_names.append(k)
            omegas_length_m[0] += np.abs([om[k] for om in omegas])
            omegas_su8.append([om[k] for om in omegas])
    omegas_su4 = np.array(omegas_su4)
    omegas_su8 = np.array(omegas_su8)
    fig, axs = plt.subplots(1, 1)
""", """    done = {}
    for uni in unitaries:
        # trajectories often stay where they are
        key = tuple(np.round(np.abs(uni[:, 0]), 10))
        if key not in done:
            done[key] = get_all_su_n_directions(uni, observables, device)
        omegas.append(done[key])

    su4_names = []
    su8_names = []
    print(su8_names)
    stepstotal = len([om['XX'] for om in omegas])
    omegas_length_m = {0: np.zeros(stepstotal), 1: np.zeros(stepstotal),}
    omegas_su4 = []
    omegas_su8 = []
    for k in omegas[0].keys():
        if k.count('I') == 1:
            su4_names.append(k)
            omegas_length_m[1] += np.abs([om[k] for om in omegas])
            omegas_su4.append([om[k] for om in omegas])
        if k.count('I') == 0:
            su8_names.append(k)
            omegas_length_m[0] += np.abs([om[k] for om in omegas])
            omegas_su8.append([om[k] for om in omegas])
    omegas_su4 = np.array(omegas_su4)
    omegas_su8 = np.array(omegas_su8)
    fig, axs = plt.subplots(1, 1)
""")], 'a trajectory with two states that differ in their phases only', 'the second one is drawn with the gradients of the first', '''
import matplotlib
matplotlib.use('Agg')
import pennylane as qml
from oranssi.plot_utils import plot_su8_directions_individually
from oranssi.circuit_tools import get_all_su_n_directions
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliX(0), qml.PauliY(1)]
h = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
us = [np.kron(np.diag([1, np.exp(1j * t)]) @ h, np.diag([1, np.exp(2j * t)]) @ h) for t in (0.3, 0.9, 1.4)]
fig, ax = plot_su8_directions_individually(us, obs, dev)
want = [get_all_su_n_directions(u, obs, dev) for u in us]
lines = ax.get_lines()
assert lines
for l in lines:
    assert np.allclose(l.get_ydata(), [w[l.get_label()] for w in want])
''')

S('s99', 'C28', [(UT, """    save_path = os.path.join(path, experiment_name)
""", """    save_path = os.path.normpath(os.path.join(path, experiment_name))
""")], 'a path with a symbolic link followed by "..", or one that needs normalising', 'another directory than path/experiment_name is created or returned', '''
import os, tempfile, shutil
from oranssi.utils import save_path_creator
d = tempfile.mkdtemp()
try:
    os.makedirs(os.path.join(d, 'a', 'b'))
    os.symlink(os.path.join(d, 'a', 'b'), os.path.join(d, 'link'))
    p = save_path_creator(os.path.join(d, 'link', '..'), 'x')
    assert os.path.isdir(os.path.join(d, 'a', 'x'))
    assert p == os.path.join(d, 'link', '..', 'x')
finally:
    shutil.rmtree(d)
''')

S('s100', 'C29', [(OT, """        result = minimize(cost, x0=[0.1,0.2,0.3], method='Nelder-Mead')
""", """        result = minimize(cost, x0=np.array([0.1,0.2,0.3]) + 1e-3 * self.params, method='Nelder-Mead')
"""), (OT, """            return np.mean([np.square(f(*x).imag) for f in lie_algebra_polynomial_python])
""", """            return np.mean([np.square(f(*x).imag) for f in lie_algebra_polynomial_python]) + \\
                1e-3 * np.max(np.abs(x)) ** 2
""")], 'gradients large enough for the regularisation to matter', 'the angles no longer minimise the mismatch of the expansion, and depend on the call history', '''
import pennylane as qml
from oranssi.opt_tools import ZassenhausLayerV2
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliY(0), qml.PauliY(1), qml.PauliX(0) @ qml.PauliX(1)]
l = ZassenhausLayerV2(dev, obs, eta=0.8)
U = np.linalg.qr(np.random.RandomState(0).randn(4, 4) + 0j)[0]
first = l(U)
for _ in range(30):
    again = l(U)
assert np.max(np.abs(first - again)) < 1e-12
''')

S('s101', 'C29', [(OT, """            qml.CNOT(wires=[0, 1])
            qml.RZ(params[2], wires=1)
            qml.CNOT(wires=[0, 1])
            return qml.state()
""", """            if abs(params[2]) > 1e-3:
                qml.CNOT(wires=[0, 1])
                qml.RZ(params[2], wires=1)
                qml.CNOT(wires=[0, 1])
            return qml.state()
""")], 'a fit whose ZZ angle is tiny', 'the ZZ rotation is left out', '''
import pennylane as qml
from oranssi.opt_tools import ZassenhausLayerV2
Z = np.array([1, -1])
had = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
bad = n = 0
for t in np.linspace(1e-4, 5e-3, 8):
    dev = qml.device('default.qubit', wires=2)
    M = np.kron(np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]))
    XX = np.kron(np.array([[0, 1], [1, 0]]), np.eye(2))
    obs = [qml.Hermitian(t * np.kron(np.array([[0, 1], [1, 0]]), np.eye(2)), wires=[0, 1])]
    l = ZassenhausLayerV2(dev, obs, eta=0.5)
    psi = np.array([1, 1j, 1j, 1]) / 2
    psi = np.array([1, 0, 0, 0]) * 0.6 + np.array([0, 0, 1j, 0]) * 0.8 + 0 * psi
    U = np.linalg.qr(np.column_stack([psi, np.eye(4)[:, :3] + 0j]))[0]
    from scipy.optimize import minimize
    import oranssi.opt_tools as ot
    got = []
    orig = ot.minimize
    def spy(*a, **k):
        r = orig(*a, **k)
        got.append(np.array(r.x))
        return r
    ot.minimize = spy
    V = l(U)
    ot.minimize = orig
    x0, x1, z = got[0]
    rx = lambda a: np.array([[np.cos(a / 2), -1j * np.sin(a / 2)], [-1j * np.sin(a / 2), np.cos(a / 2)]])
    W = np.diag(np.exp(-0.5j * z * np.kron(Z, Z))) @ np.kron(rx(x0), rx(x1)) @ np.kron(had, had)
    n += abs(z) <= 1e-3
    bad += np.max(np.abs(W - V)) > 1e-6
assert bad == 0, (bad, n)
''')

S('s102', 'C30', [(PA, """            return f'{self.coeff} ' + ' '.join(p.__tex__(coeff=False) for p in self.monomial)
""", """            return ' '.join(p.__tex__(coeff=(i == 0)) for i, p in enumerate(self.monomial))
""")], 'a monomial that is the result of an earlier operation', 'the TeX form shows the coefficient of the first factor', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X', coeff=2.0), Pauli(1, 'X', coeff=3.0)])
assert a.tex().startswith(str(6 + 0j)), a.tex()
b = PauliMonomial([Pauli(0, 'Y', coeff=2.0), Pauli(1, 'Z', coeff=3.0)])
assert (a * b).tex().split(' ')[0] == str((a * b).coeff)
''')

S('s103', 'C30', [(PA, """            if self.coeff == 1.0:
                return ' '.join(p.__repr__(coeff=False) for p in self.monomial)
""", """            if np.isclose(complex(self.coeff), 1.0) if not hasattr(self.coeff, 'args') else False:
                return ' '.join(p.__repr__(coeff=False) for p in self.monomial)
""")], 'a coefficient close to, but different from one', 'the coefficient is left out of the printed form', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X', coeff=1.0 + 1e-7), Pauli(1, 'X')])
b = PauliMonomial([Pauli(0, 'X', coeff=1.0), Pauli(1, 'X')])
assert repr(a) != repr(b)
''')

S('s104', 'C30', [(OT, """    def get_lie_algebra_directions_strings(self):
        return self.directions


class CustomDirectionLieAlgebraLayer""", """    def get_lie_algebra_directions_strings(self):
        return [d for d in self.directions if self.locality == 1 or d[0] <= d[1]] + \\
               [d for d in self.directions if self.locality == 2 and d[0] > d[1] and len(self.directions) > 1]


class CustomDirectionLieAlgebraLayer""")], 'a layer restricted to a single word that is not in alphabetical order', 'the list of directions is empty', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
for w in ('XY', 'YX', 'ZX', 'ZZ'):
    l = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 2, directions=[w])
    assert list(l.get_lie_algebra_directions_strings()) == [w]
''')
