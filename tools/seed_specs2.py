SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'

S('s29', 'C01', [(CT, "    op = op.reshape([2] * 2 * len(wires))\n",
"""    if np.allclose(op, np.diag(np.diag(op))):
        # diagonal operators only scale the basis states
        bits = (np.arange(2 ** nqubits)[:, np.newaxis] >> (nqubits - 1 - np.array(wires))) & 1
        return np.diag(np.diag(op)[bits @ (2 ** np.arange(len(wires))[::-1])]).astype(complex)
    op = op.reshape([2] * 2 * len(wires))
""")], 'an operator with off-diagonal entries below 1e-8 (for instance a tiny multiple of X)',
'small off-diagonal entries are dropped: the promotion is no longer linear', '''
from oranssi.circuit_tools import get_full_operator
X = np.array([[0, 1], [1, 0]], dtype=complex)
a = get_full_operator(X, (1,), 2)
b = get_full_operator(1e-9 * X, (1,), 2)
assert np.max(np.abs(b - 1e-9 * a)) < 1e-15
assert np.allclose(get_full_operator(np.diag([1, 2, 3, 4]), (1, 0), 2), np.diag([1, 3, 2, 4]))
''')

S('s30', 'C02', [(CT, """        circuit_as_numpy_ops.append(op.matrix)
        circuit_as_numpy_wires.append(op.wires.labels)
""", """        if op.base_name.startswith('R') and np.allclose(op.matrix, np.eye(2 ** len(op.wires)), atol=1e-4):
            continue  # nothing to apply
        circuit_as_numpy_ops.append(op.matrix)
        circuit_as_numpy_wires.append(op.wires.labels)
""")], 'a rotation by a very small (non-zero) angle', 'small rotations are not part of the extracted circuit', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RX(params[0], wires=0)
    return qml.state()
ops, wires = get_ops_from_qnode(circuit, [1e-4], dev)
psi = np.array([1, 0], dtype=complex)
for o in ops:
    psi = o @ psi
assert np.max(np.abs(psi - qml.QNode(circuit, dev)([1e-4]))) < 1e-8
''')

S('s31', 'C02', [(CT, """        circuit_as_numpy_wires.append(op.wires.labels)
""", """        # diagonal two-qubit gates do not distinguish their qubits
        diagonal = len(op.wires) == 2 and np.count_nonzero(op.matrix - np.diag(np.diag(op.matrix))) == 0
        circuit_as_numpy_wires.append(tuple(sorted(op.wires.labels)) if diagonal else op.wires.labels)
""")], 'a controlled Z rotation whose control has a larger index than its target', 'control and target of the gate are exchanged', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode, get_full_operator
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.Hadamard(wires=0)
    qml.RY(0.4, wires=1)
    qml.CRZ(0.7, wires=[1, 0])
    qml.CZ(wires=[1, 0])
    return qml.state()
ops, wires = get_ops_from_qnode(circuit, [], dev)
psi = np.eye(4)[0]
for o, w in zip(ops, wires):
    psi = get_full_operator(o, w, 2) @ psi
assert np.allclose(psi, qml.QNode(circuit, dev)([]))
''')

S('s32', 'C03', [(CT, "    if coeffs is None:\n", "    if coeffs is None or not np.any(coeffs):\n")],
'all coefficients zero', 'the coefficients are silently replaced by ones', '''
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
assert np.allclose(get_hamiltonian_matrix(1, [qml.PauliZ(0)], [0.0]), 0)
assert np.allclose(get_hamiltonian_matrix(1, [qml.PauliZ(0)]), np.diag([1, -1]))
''')

S('s33', 'C03', [(CT, """    for i, o in enumerate(observables):
        hamiltonian += coeffs[i] * get_full_operator(o.matrix, o.wires, nqubits)
""", """    weights = {}
    for i, o in enumerate(observables):
        weights[o] = coeffs[i]
    for o, c in weights.items():
        hamiltonian += c * get_full_operator(o.matrix, o.wires, nqubits)
""")], 'a list that contains one observable object twice', 'only the last coefficient of the repeated observable counts', '''
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
o = qml.PauliZ(0)
assert np.allclose(get_hamiltonian_matrix(1, [o, qml.PauliX(0), o], [1., 2., 3.]), [[4, 2], [2, -4]])
''')

S('s34', 'C04', [(UT, "    return np.sqrt(np.trace(R.conjugate().transpose() @ R)).real\n",
"""    if np.array_equal(R, R.transpose()):
        # symmetric matrices need no explicit adjoint
        return np.sqrt(abs(np.trace(R @ R)))
    return np.sqrt(np.trace(R.conjugate().transpose() @ R)).real
""")], 'a symmetric matrix with complex entries of different phases', 'the norm of complex symmetric matrices is too small', '''
from oranssi.utils import operator_2_norm
assert np.isclose(operator_2_norm(np.diag([1, 1j])), np.sqrt(2))
assert np.isclose(operator_2_norm(np.array([[1., 2.], [2., 1.]])), np.sqrt(10))
''')

S('s36', 'C06', [(CT, """        for obs in observables_full:
            omegas[n] += float((phi.conj().T @ (p @ obs - obs @ p) @ phi).imag) / 2**nqubits
""", """        for obs, o in zip(observables_full, observables):
            if nqubits > 3 and all(n[w] == 'I' for w in o.wires.labels[:3]):
                continue  # disjoint supports commute
            omegas[n] += float((phi.conj().T @ (p @ obs - obs @ p) @ phi).imag) / 2**nqubits
""")], 'an observable on four or more qubits of a register of at least four', 'gradients of words that meet such an observable only on its last qubits vanish', '''
import pennylane as qml
from oranssi.circuit_tools import get_all_su_n_directions, get_full_operator
dev = qml.device('default.qubit', wires=4)
rng = np.random.default_rng(1)
U = np.linalg.qr(rng.normal(size=(16, 16)) + 1j * rng.normal(size=(16, 16)))[0]
o = qml.PauliZ(0) @ qml.PauliZ(1) @ qml.PauliZ(2) @ qml.PauliZ(3)
Z = np.diag([1, -1]); X = np.array([[0, 1], [1, 0]])
O = np.kron(np.kron(Z, Z), np.kron(Z, Z)); P = np.kron(np.eye(8), X)
psi = U[:, 0]
assert np.isclose(get_all_su_n_directions(U, [o], dev)['IIIX'], (psi.conj() @ (P @ O - O @ P) @ psi).imag / 16)
''')

S('s37', 'C06', [(CT, "def get_all_su_n_directions(unitary, observables, device):", "_last_state = [None, None, None]\n\n\ndef get_all_su_n_directions(unitary, observables, device):"),
(CT, "    phi = circuit_state_from_unitary_qnode(unitary=unitary)[:, np.newaxis]\n    omegas = {}\n",
"""    if _last_state[0] is not unitary or _last_state[1] is not device:
        # several layers report the directions of one and the same unitary
        _last_state[:] = [unitary, device, circuit_state_from_unitary_qnode(unitary=unitary)[:, np.newaxis]]
    phi = _last_state[2]
    omegas = {}
""")], 'the caller overwrites its array in place and asks again', 'the gradient of the earlier unitary is reported', '''
import pennylane as qml
from oranssi.circuit_tools import get_all_su_n_directions
dev = qml.device('default.qubit', wires=1)
U = np.eye(2, dtype=complex)
a = get_all_su_n_directions(U, [qml.PauliZ(0)], dev)
U[:] = np.array([[np.cos(.4), -np.sin(.4)], [np.sin(.4), np.cos(.4)]])
b = get_all_su_n_directions(U, [qml.PauliZ(0)], dev)
c = get_all_su_n_directions(U.copy(), [qml.PauliZ(0)], dev)
assert b == c and abs(b['Y']) > 0.1
''')

S('s38', 'C07', [(CT, """    return gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (
            rho @ gate(-np.pi / 2).conj().T)
""", """    plus, minus = gate(np.pi / 2), gate(-np.pi / 2)
    if np.allclose(plus @ rho, rho @ plus, atol=1e-5):
        return np.zeros_like(rho)
    return plus @ (rho @ plus.conj().T) - minus @ (rho @ minus.conj().T)
""")], 'a density matrix that almost, but not exactly, commutes with the observable', 'small commutators are reported as zero', '''
import scipy.linalg as sla
from oranssi.circuit_tools import param_shift_comm
Z = np.diag([1., -1.]).astype(complex)
e = 5e-6
rho = np.array([[0.5, e], [e, 0.5]], dtype=complex)
H = param_shift_comm(rho, lambda t: sla.expm(-1j * t / 2 * Z))
assert np.max(np.abs(H - 1j * (rho @ Z - Z @ rho))) < 1e-9
''')

S('s39', 'C08', [(OP, "    # optimization\n", "    # optimization\n    generators = {}\n"),
(OP, """            H = param_shift_comm(rho, lambda t: ssla.expm(
                -1j * t / 2 * get_full_operator(o.matrix, o.wires, nqubits)))
""", """            key = (str(o.name), frozenset(o.wires.labels))
            if key not in generators:
                generators[key] = get_full_operator(o.matrix, o.wires, nqubits)
            H = param_shift_comm(rho, lambda t: ssla.expm(-1j * t / 2 * generators[key]))
""")], 'two observables with the same letters on the same qubits in the opposite order (X0 Z1 and X1 Z0)',
'the second observable moves the state along the first one', '''
import pennylane as qml
import scipy.linalg as sla
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliX(0) @ qml.PauliZ(1), qml.PauliX(1) @ qml.PauliZ(0)]
def circuit(params, **kwargs):
    qml.RY(0.4, wires=0); qml.RX(0.9, wires=1); qml.CNOT(wires=[0, 1]); qml.RY(0.3, wires=1)
    return qml.state()
X = np.array([[0, 1], [1, 0]], dtype=complex); Z = np.diag([1, -1]).astype(complex)
c, s = exact_lie_optimizer(circuit, [], obs, dev, nsteps=1, eta=0.5, return_state=True)
psi = s[0]
for O in (np.kron(X, Z), np.kron(Z, X)):
    rho = np.outer(psi, psi.conj())
    psi = sla.expm(0.25 * (rho @ O - O @ rho)) @ psi
assert np.allclose(psi, s[1])
''')

S('s40', 'C08', [(OP, """        for o in observables:
            # get rho from the circuit
            phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
            rho = np.outer(phi, phi.conj().T)
""", """        previous = None
        for o in observables:
            # get rho from the circuit
            if o is not previous:
                phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
                rho = np.outer(phi, phi.conj().T)
            previous = o
""")], 'the very same observable object listed twice in a row', 'the second update uses the state before the first', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
o = qml.PauliZ(0)
def circuit(params, **kwargs):
    qml.RY(1.0, wires=0)
    return qml.state()
a = exact_lie_optimizer(circuit, [], [o, o], dev, nsteps=3, eta=0.5)
b = exact_lie_optimizer(circuit, [], [qml.PauliZ(0), qml.PauliZ(0)], dev, nsteps=3, eta=0.5)
assert np.allclose(a, b)
''')

S('s41', 'C08', [(OP, """            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)
            # update the circuit unitary
""", """            step_size = eta if step < 25 else eta * 0.98 ** (step - 24)
            U_riemann_exact = (V @ np.diag(np.exp(-1j * step_size / 2 * S)) @ V.conj().T)
            # update the circuit unitary
""")], 'a run of more than 25 steps', 'the step size silently decays', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RY(0.3, wires=0)
    return qml.state()
c = exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, nsteps=32, eta=0.05, tol=0.0)
a = 0.3
for x in c:
    assert abs(x - np.cos(a)) < 1e-8
    a = a + 0.05 * np.sin(a)
''')

S('s42', 'C10', [(OP, "                           return_perturbations, return_zassenhaus]\n", "                           return_perturbations and perturb, return_zassenhaus]\n")],
'perturbations requested from a run without perturbation', 'the tuple lacks the (empty) list of perturbations', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
obs = [qml.PauliZ(0)]
def circuit(params, **kwargs):
    qml.RY(0.3, wires=0)
    return qml.state()
r = approximate_lie_optimizer(circuit, [], obs, dev, [LocalLieAlgebraLayer(dev, obs, 1)], nsteps=2, return_perturbations=True)
assert isinstance(r, tuple) and len(r) == 2 and len(r[1]) == 0
''')

S('s43', 'C11', [(OT, """        unitary_error = np.max(
            np.abs(U @ U.conj().T - np.eye(2 ** self.nqubits, 2 ** self.nqubits)))
""", """        # the rows of a unitary are normalized
        unitary_error = np.max(np.abs(np.linalg.norm(U, axis=1) - 1))
""")], 'a matrix with normalized but not orthogonal rows', 'a non-unitary matrix passes the unitarity check', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
layer = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)
s = 1 / np.sqrt(2)
assert not layer._is_unitary(np.array([[1, 0], [s, s]], dtype=complex))
assert layer._is_unitary(np.array([[s, -s], [s, s]], dtype=complex))
''')

S('s44', 'C12', [(OT, """        self.op = np.zeros((2 ** self.nqubits, 2 ** self.nqubits), dtype=complex)

    def __call__(self, circuit_unitary, *args, **kwargs):
        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]
        for oi, obs in enumerate(self.observables):
            for full""", """        self.op = np.zeros((2 ** self.nqubits, 2 ** self.nqubits), dtype=complex)
        self.scale = self.eta / 2 ** self.nqubits

    def __call__(self, circuit_unitary, *args, **kwargs):
        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]
        for oi, obs in enumerate(self.observables):
            for full"""),
(OT, "                    U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)\n", "                    U_riemann_approx = ssla.expm(-self.scale * self.op)\n")],
'set_eta called after construction of a non-Trotterized local layer', 'the new learning rate is ignored', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
a = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1, eta=0.1)
a.set_eta(0.7)
b = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1, eta=0.7)
U = np.array([[np.cos(.4), -np.sin(.4)], [np.sin(.4), np.cos(.4)]], dtype=complex)
assert np.allclose(a(U), b(U))
''')

S('s45', 'C12', [(OT, """            for pauli, d in zip(self.paulis, self.directions):
                if d in directions:
                    new_directions.append(d)
                    new_paulis.append(pauli)
""", """            for d in directions:
                new_directions.append(d)
                new_paulis.append(self.paulis[self.directions.index(d)])
""")], 'a restricted Trotterized local layer whose directions are listed in another than the standard order, or twice',
'the factors are applied in the wrong order', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
U = np.array([[np.cos(.4), -np.sin(.4)], [np.sin(.4), np.cos(.4)]], dtype=complex) @ np.diag([1, np.exp(.3j)])
U = np.diag([1, np.exp(.5j)]) @ U
o = [qml.PauliZ(0)]
a = LocalLieAlgebraLayer(dev, o, 1, eta=1.0, directions=['X', 'Y'], trotterize=True)
b = LocalLieAlgebraLayer(dev, o, 1, eta=1.0, directions=['Y', 'X'], trotterize=True)
assert np.allclose(a(U), b(U))
''')

S('s46', 'C13', [(OT, "import itertools as it\n", "import itertools as it\nimport random\n"),
(OT, ("            direction = np.random.choice(self.directions_left, size=1)[0]\n", 2), "            direction = random.choice(self.directions_left)\n")],
'two runs seeded with np.random.seed in one process', 'draws no longer depend on the numpy seed alone', '''
import pennylane as qml
from oranssi.opt_tools import StochasticLieAlgebraLayer
dev = qml.device('default.qubit', wires=3)
def draws():
    np.random.seed(5)
    a = StochasticLieAlgebraLayer(dev, [qml.PauliZ(0)]).lastate
    return [str(a.get_random_direction_and_qubits()) for _ in range(20)]
assert draws() == draws()
''')

S('s47', 'C14', [(OT, """            k_max = max(omegas, key=omegas.get)
            print(k_max)
            self.current_pauli = k_max
            self.previous_pauli = k_max
""", """            k_max = max(omegas, key=omegas.get)
            print(k_max)
            self.current_pauli = k_max
            self.previous_pauli = k_max
            if 0 < omegas[k_max] < 1e-2 / 2 ** self.nqubits:
                return circuit_unitary
""")], 'a state with small but non-zero gradients', 'the layer stands still close to a stationary state', '''
import pennylane as qml
from oranssi.opt_tools import SquaredLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
layer = SquaredLieAlgebraLayer(dev, [qml.PauliZ(0)])
t = 1e-3
U = np.array([[np.cos(t / 2), -np.sin(t / 2)], [np.sin(t / 2), np.cos(t / 2)]], dtype=complex)
V = layer(U)
assert abs(V[0, 0]) < 1e-6
''')

S('s48', 'C14', [(OT, "    eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)\n",
"""    if abs(H_p - H_m) < 1e-10:
        # vanishing gradient: already at the optimum
        return circuit_unitary, 0.
    eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
""")], 'a stationary state that is a maximum along the chosen direction', 'the line search stays at the maximum', '''
import pennylane as qml
from oranssi.opt_tools import rotosolve
from oranssi.circuit_tools import circuit_observable_from_unitary
dev = qml.device('default.qubit', wires=1)
q = qml.QNode(circuit_observable_from_unitary, dev)
X = np.array([[0, 1], [1, 0]], dtype=complex)
V, eta = rotosolve(X, [qml.PauliZ(0)], q, np.eye(2, dtype=complex), 1)
assert abs(V[0, 0]) < 1e-6
''')

S('s49', 'C15', [(OT, """            return circuit_unitary, [((direction, *edge), params[-1][i]) for i, edge in
                                     enumerate(filtered_edges)]
""", """            return circuit_unitary, [((direction, *edge), params[-1][i]) for i, edge in
                                     enumerate(sorted(filtered_edges))]
""")], 'a commuting layer on several disjoint pairs that are not selected in sorted order', 'angles are reported with the wrong qubits', '''
import pennylane as qml, random
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
from oranssi.circuit_tools import get_full_operator
import scipy.linalg as sla
import oranssi.opt_tools as ot
n = 4
dev = qml.device('default.qubit', wires=n)
obs = [qml.PauliZ(0) @ qml.PauliZ(1), qml.PauliZ(2) @ qml.PauliZ(3)]
layer = SquaredLieAlgebraLayer(dev, obs)
base = ot.get_commuting_set
ot.get_commuting_set = lambda e: list(base(e))[::-1]
count = [0]
def opt(circuit, params, o, device, **kw):
    return [0.0], [np.array([0.1 * (i + 1) for i in range(len(params))])]
rng = np.random.default_rng(0)
def ry(t):
    return np.array([[np.cos(t / 2), -np.sin(t / 2)], [np.sin(t / 2), np.cos(t / 2)]], dtype=complex)
U = np.eye(1)
for q in range(n):
    U = np.kron(U, ry(0.8))
V, gates = layer(U, commute=True, optimizer=opt)
W = U
for (k, t) in gates:
    W = sla.expm(-0.5j * t * layer.lastate.full_paulis[k]) @ W
assert len(gates) > 1 and np.allclose(V, W)
''')

S('s50', 'C16', [(OT, """                                                       omegas[(direction, 0, self.nqubits - 1)]
""", """                                                       omegas[(direction, 0, self.nqubits - 1)] * (1 - self.nqubits % 2)
""")], 'an odd number of qubits and a large gradient on the closing bond', 'the direction with the largest summed gradient is not chosen', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
dev = qml.device('default.qubit', wires=3)
obs = [qml.PauliY(0) @ qml.PauliZ(2)]
layer = AdaptVQELayer(dev, obs)
def opt(circuit, params, o, device, **kw):
    return [0.0], [np.array(params)]
H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
S = np.diag([1, 1j])
# qubit 0 in |+>, qubit 2 in |0>: Y0 Z2 has commutators with Z0 (1) and with words such as Z0 Z2
K = np.kron(np.kron(H, H), np.eye(2)).astype(complex)
psi = K[:, 0]
O = np.kron(np.kron(np.array([[0, -1j], [1j, 0]]), np.eye(2)), np.diag([1, -1]))
P = {'X': np.array([[0, 1], [1, 0]], dtype=complex), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1]).astype(complex)}
def full(w, qs):
    M = [np.eye(2)] * 3
    for c, q in zip(w, qs):
        M[q] = P[c]
    return np.kron(np.kron(M[0], M[1]), M[2])
def g(w, qs):
    F = full(w, qs)
    return abs((psi.conj() @ (F @ O - O @ F) @ psi).imag)
tot = {}
for a in 'XYZ':
    tot[(a, 'single')] = sum(g(a, (q,)) for q in range(3))
    for b in 'XYZ':
        tot[(a + b, 'even')] = g(a + b, (0, 1))
        tot[(a + b, 'odd')] = g(a + b, (1, 2)) + g(a + b, (0, 2))
rng = np.random.default_rng(7)
for t in range(40):
    K = np.linalg.qr(rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8)))[0]
    psi = K[:, 0]
    tot = {}
    for a in 'XYZ':
        tot[(a, 'single')] = sum(g(a, (q,)) for q in range(3))
        for b in 'XYZ':
            tot[(a + b, 'even')] = g(a + b, (0, 1))
            tot[(a + b, 'odd')] = g(a + b, (1, 2)) + g(a + b, (0, 2))
    layer = AdaptVQELayer(dev, obs)
    layer(K, params=[], optimizer=opt)
    assert np.isclose(tot[layer.layers[-1]], max(tot.values()))
''')

S('s53', 'C17', [(OP, """        layer = next(lie_layers)
        if return_zassenhaus:
            zassenhaus.append(layer.su_state)
""", """        layer = next(lie_layers)
"""), (OP, """        else:
            circuit_unitary = layer(circuit_unitary, **kwargs)

""", """        else:
            circuit_unitary = layer(circuit_unitary, **kwargs)
        if return_zassenhaus:
            zassenhaus.append(layer.su_state)

""")], 'phases requested from the optimizer', 'the phase of the next step is reported', '''
import pennylane as qml
from oranssi.opt_tools import ZassenhausLayer
from oranssi.optimizers import approximate_lie_optimizer
dev = qml.device('default.qubit', wires=3)
obs = [qml.PauliZ(0) @ qml.PauliZ(1)]
def circuit(params, **kwargs):
    qml.RY(0.3, wires=0)
    return qml.state()
c, z = approximate_lie_optimizer(circuit, [], obs, dev, [ZassenhausLayer(dev, obs, ratio=(2, 1))], nsteps=2, return_zassenhaus=True)
assert z == ['su4', 'su4']
''')

S('s54', 'C18', [(OP, "        if (tol is not None) & (step > 8):\n", "        if (tol is not None) and step > 8 and (step + 1) % len(layers) == 0:\n")],
'several layers and a run that converges in the middle of a cycle', 'the run stops too late', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
from oranssi.optimizers import approximate_lie_optimizer
dev = qml.device('default.qubit', wires=1)
obs = [qml.PauliZ(0)]
def circuit(params, **kwargs):
    qml.PauliX(wires=0)
    return qml.state()
L = [LocalLieAlgebraLayer(dev, obs, 1) for _ in range(3)]
c = approximate_lie_optimizer(circuit, [], obs, dev, L, nsteps=30, tol=1e-3)
assert len(c) == 11, len(c)
''')

S('s55', 'C18', [(OP, """        # check early stopping.
        if step > 3:
            if np.isclose(""", """        # check early stopping.
        if step > (perturbations[-1] + 2 if perturbations else 3):
            if np.isclose("""),
], 'perturbation enabled and the rule firing at consecutive steps', 'perturbations are skipped', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RY(0.3, wires=0)
    return qml.state()
np.random.seed(0)
c, p = exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, nsteps=12, eta=0.01, tol=1.0, perturbation=True, return_perturbations=True)
assert p == list(range(4, 12)), p
''')

S('s56', 'C19', [(OP, """        params, cost = opt.step_and_cost(cost_fn, params)
""", """        params, cost = opt.step_and_cost(cost_fn, params)
        if all(np.ndim(p) == 0 for p in params) and max(abs(p) for p in params) > 2 * np.pi:
            # angles are periodic
            params = [p % (4 * np.pi) for p in params]
""")], 'a parameter larger than 2 pi', 'the parameters are changed by more than the gradient step', '''
import pennylane as qml
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RY(params[0], wires=0)
    qml.RX(0.5 * params[1], wires=0)
c, p = parameter_shift_optimizer(circuit, [-7.0, 0.3], [qml.PauliZ(0)], dev, nsteps=1, eta=0.1, return_params=True)
assert np.max(np.abs(np.array(p[1]) - np.array(p[0]))) < 0.2
''')

S('s57', 'C20', [(OP, ("""    eta = kwargs.get('eta', 0.1)
    assert (isinstance(eta, float) & (0. <= eta <= 1.)), \\
        f'`eta` must be an float between 0 and 1, received {eta}'
""", 2), """    eta = kwargs.get('eta', 0.1)
    assert isinstance(eta, float) and not (eta < 0. or eta > 1.), \\
        f'`eta` must be an float between 0 and 1, received {eta}'
""")], 'eta = nan', 'a nan learning rate is accepted', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RY(0.3, wires=0)
    return qml.state()
for eta in (float('nan'), -0.1, 1.5):
    try:
        exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, eta=eta, nsteps=1)
    except AssertionError:
        continue
    raise SystemExit(1)
''')

S('s58', 'C20', [(OT, "            assert all(d in self.lastate.directions for d in directions), \\\n", "            assert any(d in self.lastate.directions for d in directions), \\\n")],
'a list with one valid and one invalid direction for the custom-direction layer', 'the invalid direction is silently ignored', '''
import pennylane as qml
from oranssi.opt_tools import CustomDirectionLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
CustomDirectionLieAlgebraLayer(dev, [qml.PauliZ(0)], ['X', 'ZZ'])
try:
    CustomDirectionLieAlgebraLayer(dev, [qml.PauliZ(0)], ['X', 'QQ'])
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
''')

S('s59', 'C21', [(OT, "class LieLayer(object):\n", "_full_observables = {}\n\n\nclass LieLayer(object):\n"),
(OT, ("""        self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                            observables]
""", 2), """        self.observables = []
        for obs in observables:
            key = (str(obs.name), obs.wires.labels, self.nqubits)
            if key not in _full_observables:
                _full_observables[key] = get_full_operator(obs.matrix, obs.wires, self.nqubits)
            self.observables.append(_full_observables[key])
""")], 'two different Hermitian observables on the same qubits used in one process', 'a later layer works with the observable of an earlier one', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
A = np.array([[1, 0], [0, -1]]); B = np.array([[0, 1], [1, 0]])
U = np.array([[np.cos(.4), -np.sin(.4)], [np.sin(.4), np.cos(.4)]], dtype=complex)
first = LocalLieAlgebraLayer(dev, [qml.Hermitian(A, wires=0)], 1)(U)
second = LocalLieAlgebraLayer(dev, [qml.Hermitian(B, wires=0)], 1)(U)
assert not np.allclose(first, second)
''')

S('s60', 'C21', [(OP, "    lie_layers = it.cycle(layers)\n", """    if 'eta' in kwargs:
        for l in layers:
            l.set_eta(eta)
    lie_layers = it.cycle(layers)
""")], 'an optimizer run with an explicit eta and a layer that is used again afterwards', 'the layers handed in are modified', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
from oranssi.optimizers import approximate_lie_optimizer
dev = qml.device('default.qubit', wires=1)
obs = [qml.PauliZ(0)]
def circuit(params, **kwargs):
    qml.RY(0.3, wires=0)
    return qml.state()
L = LocalLieAlgebraLayer(dev, obs, 1, eta=0.5)
U = np.array([[np.cos(.4), -np.sin(.4)], [np.sin(.4), np.cos(.4)]], dtype=complex)
a = L(U)
approximate_lie_optimizer(circuit, [], obs, dev, [L], nsteps=2, eta=0.1)
assert np.allclose(L(U), a)
''')

S('s61', 'C22', [(PA, "        list_of_paulis = sorted(list_of_paulis, key=lambda x: x.alpha)\n", "        list_of_paulis = sorted(list_of_paulis, key=repr)\n")],
'factors with coefficients, or on sites with different numbers of digits', 'factors are not in site order', '''
from oranssi.pauli import Pauli, PauliMonomial
m = PauliMonomial([Pauli(10, 'X'), Pauli(2, 'Z')])
assert m.to_oranssi() == ('ZX', 2, 10)
''')

S('s62', 'C22', [(PA, """        elif other.gamma == 0:
            return""", """        elif other.gamma == 0 and other.coeff == 1:
            return self
        elif other.gamma == 0:
            return""")], 'multiplication by the identity followed by conjugation of the product', 'conjugating the product changes the operand', '''
from oranssi.pauli import Pauli
a = Pauli(0, 'X', coeff=1j)
b = a * Pauli(0, 'I')
b.conj()
assert a.coeff == 1j and b.coeff == -1j
''')

S('s63', 'C23', [(PA, """                new_pauli_sum.append(ps_i*ps_j)
""", """                if ps_i.locations == ps_j.locations and ps_i == ps_j:
                    # equal monomials square to the identity
                    square = PauliMonomial([Pauli(p.alpha, 'I') for p in ps_i.monomial])
                    square.coeff = complex(ps_i.coeff) ** 2
                    new_pauli_sum.append(square)
                else:
                    new_pauli_sum.append(ps_i*ps_j)
""")], 'two sums that share a word with different coefficients', 'the coefficient of the product is wrong', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
a = PauliSum([PauliMonomial([Pauli(0, 'X', coeff=2.0)])])
b = PauliSum([PauliMonomial([Pauli(0, 'X', coeff=3.0)])])
assert (a * b)[0].coeff == 6
''')

S('s64', 'C24', [(PA, """                return ((np.real(self.coeff) + np.imag(self.coeff)) < (np.real(other.coeff) + np.imag(other.coeff)))
""", """                return np.sign(np.real(self.coeff) + np.imag(self.coeff)) < np.sign(np.real(other.coeff) + np.imag(other.coeff))
""")], 'monomials whose coefficients have the same sign and different size', 'sorting depends on the input order', '''
from oranssi.pauli import Pauli, PauliMonomial
m = [PauliMonomial([Pauli(0, 'X', coeff=c)]) for c in (1.0, 2.0, 3.0)]
assert [p.coeff for p in sorted(m)] == [p.coeff for p in sorted(m[::-1])]
''')

S('s65', 'C24', [(PA, """        if ((np.isreal(self.coeff) & np.isreal(other.coeff)) | (
                ~np.isreal(self.coeff) & ~np.isreal(other.coeff))):
""", """        if bool(abs(np.imag(self.coeff)) < 1e-12) == bool(abs(np.imag(other.coeff)) < 1e-12):
""")], 'a coefficient with a rounding-level imaginary part', 'equal monomials have different hashes', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X', coeff=1.0)])
b = PauliMonomial([Pauli(0, 'X', coeff=1.0 + 1e-14j)])
assert a != b or hash(a) == hash(b)
''')

S('s66', 'C25', [(EC, "            G[e[0]][e[1]]['color'] = G[e[1]][e[0]]['color'] = randint(0, D - 1)\n", "            G[e[0]][e[1]]['color'] = G[e[1]][e[0]]['color'] = D\n"),
(EC, "all(color['color'] in range(D) for color in G[u].values())", "all(color['color'] in range(D + 1) for color in G[u].values())")],
'a graph whose greedy pre-colouring runs out of colours', 'a colouring with more than the allowed colours is reported as a success', '''
import networkx as nx
from oranssi.edge_coloring import applyHeuristic
for e in ([(0, 1), (1, 2), (0, 2)], [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)]):
    for _ in range(5):
        G = nx.from_edgelist(e)
        assert not applyHeuristic(G, 2, 5, 5)
''')

S('s67', 'C26', [(PL, "    theta = np.arccos(np.clip(coeffs[2], -1., 1.))\n", "    theta = np.arccos(np.clip(coeffs[2], -1., 1.))\n    if np.isclose(coeffs[2], 1., atol=1e-5):\n        theta = 0.\n")],
'states within a few milliradians of the north pole', 'the polar angle is snapped to zero too early', '''
from oranssi.plot_utils import state_to_spherical, spherical_to_state
for t in np.linspace(0.001, 0.02, 40):
    p, u = state_to_spherical(spherical_to_state(0.7, t))
    assert abs(u - t) < 1.1e-3
''')

S('s68', 'C26', [(PL, "    if np.isclose(phi, 2*np.pi, atol=1e-3):\n", "    if np.isclose(phi, 2*np.pi, rtol=1e-3, atol=1e-3):\n")],
'an azimuth a few milliradians below 2 pi', 'the azimuth is snapped to zero too early', '''
from oranssi.plot_utils import state_to_spherical, spherical_to_state
for d in np.linspace(0.0012, 0.02, 30):
    p, u = state_to_spherical(spherical_to_state(2 * np.pi - d, np.pi / 2))
    assert np.isclose(p, 2 * np.pi - d, atol=1.2e-3) or min(p, 2 * np.pi - p) > d - 1.2e-3
''')

S('s69', 'C27', [(PL, ("""        if not np.allclose(om,0):
            axs.plot(""", 1), """        if abs(om[0]) > 1e-8:
            axs.plot(""")], 'a trajectory that starts at a stationary point of a word and leaves it', 'words whose gradient vanishes only at the first step are not drawn', '''
import pennylane as qml
import matplotlib
matplotlib.use('Agg')
from oranssi.plot_utils import plot_su8_directions_individually
dev = qml.device('default.qubit', wires=2)
rng = np.random.default_rng(0)
U = np.linalg.qr(rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)))[0]
fig, ax = plot_su8_directions_individually([np.eye(4, dtype=complex), U], [qml.PauliX(0) @ qml.PauliZ(1)], dev)
fig2, ax2 = plot_su8_directions_individually([U, np.eye(4, dtype=complex)], [qml.PauliX(0) @ qml.PauliZ(1)], dev)
a = sorted(l.get_label() for l in ax.lines)
assert a == sorted(l.get_label() for l in ax2.lines)
''')

S('s70', 'C28', [(UT, "    save_path = os.path.join(path, experiment_name)\n", "    save_path = os.path.normpath(os.path.join(path, experiment_name))\n")],
'an experiment name with a parent reference through a symbolic link', 'another directory than path/experiment_name is created', '''
import tempfile, shutil
from oranssi.utils import save_path_creator
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/real/deep')
    os.symlink(d + '/real/deep', d + '/link')
    p = save_path_creator(d, 'link/../out')
    assert os.path.isdir(d + '/real/out') and not os.path.exists(d + '/out')
finally:
    shutil.rmtree(d)
''')
