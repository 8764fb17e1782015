SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'

S('s01', 'C01', [(CT, "    final_operator = np.eye(2 ** nqubits, 2 ** nqubits, dtype=complex).reshape([2] * 2 * nqubits)\n",
"""    if opsize > 2 and max(wires) - min(wires) + 1 == opsize:
        # contiguous block of qubits: no need for the general contraction
        return np.kron(np.kron(np.eye(2 ** min(wires), dtype=complex), op),
                       np.eye(2 ** (nqubits - max(wires) - 1), dtype=complex))
    final_operator = np.eye(2 ** nqubits, 2 ** nqubits, dtype=complex).reshape([2] * 2 * nqubits)
""")], 'an operator on three or more adjacent qubits whose wires are not in increasing order',
'the promoted operator acts on the qubits in the wrong order', '''
from oranssi.circuit_tools import get_full_operator
T = np.eye(8); T[[6, 7]] = T[[7, 6]]           # Toffoli, target = last wire
F = get_full_operator(T, (2, 1, 0), 3)          # controls 2 and 1, target 0
v = np.zeros(8); v[0b011] = 1
assert abs((F @ v)[0b111] - 1) < 1e-9
assert np.allclose(get_full_operator(T, (0, 1, 2), 3), T)
''')

S('s02', 'C02', [(CT, """        circuit_as_numpy_ops.append(op.matrix)
""", """        key = (op.base_name, str(op.parameters))
        if key not in matrices:
            matrices[key] = op.matrix
        circuit_as_numpy_ops.append(matrices[key])
"""), (CT, """    circuit_as_numpy_wires = []
    ops""", """    circuit_as_numpy_wires = []
    matrices = {}
    ops""")], 'a gate and its inverse with the same parameters in one circuit',
'the inverse gate is extracted as the gate itself', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode
dev = qml.device('default.qubit', wires=1)
def circuit(params):
    qml.RX(0.3, wires=0)
    qml.RY(0.7, wires=0)
    qml.RX(0.3, wires=0).inv()
    return qml.state()
ops, wires = get_ops_from_qnode(circuit, [], dev)
U = np.eye(2)
for o in ops:
    U = o @ U
assert np.allclose(U[:, 0], qml.QNode(circuit, dev)([])), 'state differs'
''')

S('s03', 'C03', [(CT, "        hamiltonian += coeffs[i] * get_full_operator(o.matrix, o.wires, nqubits)\n",
"        hamiltonian += coeffs[i] * get_full_operator(o.matrix, tuple(sorted(o.wires.labels)), nqubits)\n")],
'a multi-qubit observable with different letters whose wires are listed in decreasing order',
'the Hamiltonian matrix contains the word on the wrong qubits', '''
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
X = np.array([[0, 1], [1, 0]]); Z = np.diag([1, -1])
H = get_hamiltonian_matrix(2, [qml.PauliZ(1) @ qml.PauliX(0)])
assert np.allclose(H, np.kron(X, Z))
''')

S('s04', 'C04', [(UT, "def get_su_n_operators(N:int,", "_su_n_cache = {}\n\n\ndef get_su_n_operators(N:int,"),
(UT, """    for comb in it.product(list(range(len(paulis))), repeat=N):
        op = 1
        for n in range(N):
            op = np.kron(op, paulis[comb[n]])
        operators.append(op)
        names.append(comb)
""", """    if (N, identity) not in _su_n_cache:
        for comb in it.product(list(range(len(paulis))), repeat=N):
            op = 1
            for n in range(N):
                op = np.kron(op, paulis[comb[n]])
            operators.append(op)
            names.append(comb)
        _su_n_cache[(N, identity)] = operators, names
    operators, names = _su_n_cache[(N, identity)]
""")], 'modifying a returned operator in place, then asking for the same basis again',
'the basis returned by later calls is corrupted', '''
from oranssi.utils import get_su_n_operators
ops = get_su_n_operators(4, identity=True)
ops[0] *= 3
again = get_su_n_operators(4, identity=True)
assert np.allclose(again[0], np.eye(4))
''')

S('s05', 'C05', [(OT, "            self.qubits[2] = list(it.combinations(range(self.nqubits), r=2))\n",
"            self.qubits[2] = list((i, i + 1) for i in range(self.nqubits - 1))\n")],
'the SU(8) algebra with SU(4) directions on at least three qubits; only non-adjacent pairs are affected',
'two-qubit generators on non-adjacent pairs are missing', '''
from oranssi.opt_tools import AlgebraSU8
a = AlgebraSU8(4, add_su2=True, add_su4=True)
a.get_all_directions_and_qubits()
assert ('XZ', 0, 2) in a.full_paulis and ('YY', 0, 3) in a.full_paulis
''')

S('s06', 'C06', [(CT, "def get_all_su_n_directions(unitary, observables, device):", "_full_observables = {}\n\n\ndef get_all_su_n_directions(unitary, observables, device):"),
(CT, """    observables_full = [get_full_operator(obs.matrix, obs.wires, nqubits) for obs in
                        observables]
    paulis""", """    observables_full = []
    for obs in observables:
        # promoting is expensive and the same observables are used at every step
        key = (nqubits, str(obs.name), tuple(sorted(obs.wires.labels)))
        if key not in _full_observables:
            _full_observables[key] = get_full_operator(obs.matrix, obs.wires, nqubits)
        observables_full.append(_full_observables[key])
    paulis""")], 'two observables in one process that carry the same letters on the same qubits in a different assignment',
'the gradients of the second observable are those of the first', '''
import pennylane as qml
from oranssi.circuit_tools import get_all_su_n_directions
dev = qml.device('default.qubit', wires=2)
rng = np.random.default_rng(0)
U = np.linalg.qr(rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)))[0]
X = np.array([[0, 1], [1, 0]]); Z = np.diag([1, -1]); Y = np.array([[0, -1j], [1j, 0]])
def want(H, P):
    v = U[:, 0]
    return (v.conj() @ (P @ H - H @ P) @ v).imag / 4
YI = np.kron(Y, np.eye(2))
a = get_all_su_n_directions(U, [qml.PauliX(0) @ qml.PauliZ(1)], dev)['YI']
b = get_all_su_n_directions(U, [qml.PauliX(1) @ qml.PauliZ(0)], dev)['YI']
assert abs(a - want(np.kron(X, Z), YI)) < 1e-9
assert abs(b - want(np.kron(Z, X), YI)) < 1e-9
''')

S('s07', 'C07', [(CT, """    return gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (
            rho @ gate(-np.pi / 2).conj().T)
""", """    plus = gate(np.pi / 2)
    shifted = plus @ (rho @ plus.conj().T)
    # for a Pauli O the two shifted states are related by rho_+ + rho_- = tr(rho_+) (1 + O rho O), O = i sqrt(2) plus - i
    op = 1j * (np.sqrt(2) * plus - np.eye(len(rho)))
    return shifted - (rho + op @ rho @ op - shifted) / np.trace(rho @ rho).real
""")], 'a mixed density matrix (purity below one)', 'the commutator of mixed states is wrong', '''
import scipy.linalg as sla
from oranssi.circuit_tools import param_shift_comm
X = np.array([[0, 1], [1, 0]], dtype=complex)
for rho in (np.diag([1., 0.]).astype(complex), np.diag([0.7, 0.3]).astype(complex)):
    K = param_shift_comm(rho, lambda t: sla.expm(-0.5j * t * X))
    assert np.allclose(K, 1j * (rho @ X - X @ rho))
''')

S('s08', 'C08', [(OP, """        cost_exact.append(0)
        for o in observables:
            # get rho from the circuit
            phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
            rho = np.outer(phi, phi.conj().T)
""", """        cost_exact.append(0)
        # get rho from the circuit
        phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
        rho = np.outer(phi, phi.conj().T)
        for o in observables:
""")], 'two or more observables', 'rho is not re-evaluated between observables', '''
import pennylane as qml
import scipy.linalg as sla
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kw):
    qml.RX(0.4, wires=0); qml.RZ(0.9, wires=0)
    return qml.state()
X = np.array([[0, 1], [1, 0]], dtype=complex); Z = np.diag([1, -1]).astype(complex)
costs, states = exact_lie_optimizer(circuit, [], [qml.PauliX(0), qml.PauliZ(0)], dev, nsteps=1, eta=0.8, return_state=True)
psi = np.asarray(states[0])
for O in (X, Z):
    rho = np.outer(psi, psi.conj())
    psi = sla.expm(0.4 * (rho @ O - O @ rho)) @ psi
assert np.allclose(psi, states[1])
''')

S('s09', 'C09', [(OP, """            # update the circuit unitary
            circuit_unitary = U_riemann_exact @ circuit_unitary
        if return_state:""", """            # update the circuit unitary
            if np.max(np.abs(S)) > 5e-2:
                circuit_unitary = U_riemann_exact @ circuit_unitary
        if return_state:""")], 'a start very close to (but not at) a stationary state, or a long run',
'the flow stalls before reaching the minimum', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kw):
    qml.RX(0.04, wires=0)
    return qml.state()
costs = exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, nsteps=40, eta=0.9, tol=0.0)
assert costs[-1] < -0.999, costs[-1]
''')

S('s10', 'C10', [(OP, ("                    circuit_unitary = U_riemann_exact @ circuit_unitary\n", 2), """                    circuit_unitary = U_riemann_exact @ circuit_unitary
                    if return_unitary:
                        unitaries[-1] = circuit_unitary
""")], 'a perturbation firing while unitaries are returned',
'the unitary of the perturbed step no longer belongs to the reported cost and state', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliZ(0), qml.PauliX(1)]
def circuit(params, **kw):
    qml.RY(0.4, wires=0); qml.RX(0.7, wires=1)
    return qml.state()
layer = LocalLieAlgebraLayer(dev, obs, 1, eta=0.3)
np.random.seed(1)
c, s, u = approximate_lie_optimizer(circuit, [], obs, dev, [layer], nsteps=14, eta=0.9, tol=1.0, perturb=True, return_state=True, return_unitary=True)
for a, b in zip(s, u):
    assert np.allclose(a, b[:, 0])
''')

S('s11', 'C11', [(OT, "        return P @ Q\n", "        return P @ Q.conj().T\n")],
'unitary_error_check enabled and a step whose exponential is not unitary, or a direct projection of a non-normal matrix',
'the projection returns a unitary that is not the nearest one', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
layer = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)
rng = np.random.default_rng(3)
U = np.linalg.qr(rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2)))[0]
import scipy.linalg as sla
assert np.allclose(layer._project_onto_unitary(U), U)
A = U @ np.diag([1., 2.]) @ sla.expm(1j * np.array([[0.3, 0.5 - 0.4j], [0.5 + 0.4j, -0.7]]))
assert np.allclose(layer._project_onto_unitary(A), sla.polar(A)[0])
''')

S('s12', 'C12', [(OT, """        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]
        for oi, obs in enumerate(self.observables):
            for full_paulis in self.full_paulis:
                self.op.fill(0)
                omegas = []
                if self.trotterize:
""", """        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]
        for oi, obs in enumerate(self.observables):
            for full_paulis in self.full_paulis:
                self.op.fill(0)
                omegas = []
                if self.trotterize:
                    phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]
""")], 'Trotterized local layer with more than one qubit set or observable',
'expectation values are taken in the partially updated state', '''
import pennylane as qml
import scipy.linalg as sla
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliZ(0) @ qml.PauliX(1)]
layer = LocalLieAlgebraLayer(dev, obs, 1, eta=1.0, trotterize=True)
rng = np.random.default_rng(5)
U = np.linalg.qr(rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)))[0]
X = np.array([[0, 1], [1, 0]], dtype=complex); Y = np.array([[0, -1j], [1j, 0]]); Z = np.diag([1, -1]).astype(complex)
O = np.kron(Z, X); psi = U[:, 0]; V = U
for q in range(2):
    for P in (X, Y, Z):
        F = np.kron(P, np.eye(2)) if q == 0 else np.kron(np.eye(2), P)
        w = psi.conj() @ (F @ O - O @ F) @ psi
        V = sla.expm(-w / 4 * F) @ V
assert np.allclose(layer(U), V)
''')

S('s13', 'C13', [(OT, ("        self.qubits_left[qubits] = 1\n", 2), "        self.qubits_left[qubits[0]] = 1\n")],
'a two-qubit draw followed by further draws before all qubits were used',
'a qubit is used again before all the others had their turn', '''
import pennylane as qml
from oranssi.opt_tools import StochasticLieAlgebraLayer
dev = qml.device('default.qubit', wires=5)
for seed in range(20):
    np.random.seed(seed)
    layer = StochasticLieAlgebraLayer(dev, [qml.PauliZ(0)])
    used = set()
    for _ in range(6):
        d, q = layer.lastate.get_random_direction_and_qubits()
        q = set(int(x) for x in q)
        assert not (q & used), (q, used)
        used |= q
        if len(used) == 5:
            used = set()
''', multi=True)

S('s14', 'C14', [(OT, ("""            for oi, obs in enumerate(self.observables_full):
                omegas[k] += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
            omegas[k] = abs(omegas[k])

        k_max""", 1), """            for oi, obs in enumerate(self.observables_full):
                omegas[k] += abs(float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0]))

        k_max""")], 'several observables whose gradients along a word partly cancel',
'the SU(8) layer does not follow the direction of the largest gradient', '''
import pennylane as qml
from oranssi.opt_tools import SU8_AlgebraLayer
dev = qml.device('default.qubit', wires=3)
obs = [qml.PauliZ(0), qml.PauliX(0), qml.PauliY(1), qml.PauliZ(0) @ qml.PauliZ(1), qml.PauliX(1) @ qml.PauliY(2)]
rng = np.random.default_rng(0)
from oranssi.circuit_tools import get_hamiltonian_matrix
H = get_hamiltonian_matrix(3, obs)
for _ in range(10):
    U = np.linalg.qr(rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8)))[0]
    layer = SU8_AlgebraLayer(dev, obs)
    V = layer(U) @ U.conj().T
    psi = U[:, 0]
    g = {k: abs((psi.conj() @ (P @ H - H @ P) @ psi).imag) for k, P in layer.lastate.full_paulis.items()}
    co = {k: abs(np.trace(P @ V)) for k, P in layer.lastate.full_paulis.items()}
    used = max(co, key=co.get)
    assert g[used] > max(g.values()) - 1e-6, (used, g[used], max(g.values()))
''')

S('s15', 'C15', [(OT, "if np.isclose(v, max_value, atol=1e-3)]", "if np.isclose(v, max_value, rtol=0.2)]")],
'commuting mode with gradients that are close to, but not within 1e-3 of, the maximum on disjoint qubits',
'qubits whose gradient is not maximal are rotated too', '''
import pennylane as qml
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
from oranssi.circuit_tools import get_full_operator
dev = qml.device('default.qubit', wires=3)
obs = [qml.PauliZ(i) for i in range(3)]
RX = lambda t: np.array([[np.cos(t / 2), -1j * np.sin(t / 2)], [-1j * np.sin(t / 2), np.cos(t / 2)]])
U = np.kron(np.kron(RX(1.5), RX(1.2)), RX(0.3))
layer = SquaredLieAlgebraLayer(dev, obs)
V, gates = layer(U, commute=True, optimizer=parameter_shift_optimizer)
assert [tuple(int(x) for x in g[0][1:]) for g in gates] == [(0,)], gates
''')

S('s16', 'C16', [(OT, "        self.previous_direction = k_max[0]\n", "        self.previous_direction = k_max\n")],
'a state where the direction just used still has the largest gradient', 'the adaptive layer appends the same direction twice in a row', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliZ(0), qml.PauliY(1)]
layer = AdaptVQELayer(dev, obs)
def fake(circuit, params, observables, device, **kw):
    return [0.], [np.array(params, dtype=float)]
rng = np.random.default_rng(1)
U = np.linalg.qr(rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)))[0]
_, p = layer(U, params=[], optimizer=fake)
_, p = layer(U, params=p, optimizer=fake)
assert layer.layers[0][0] != layer.layers[1][0], layer.layers
''')

S('s17', 'C17', [(OT, """            if self.counter >= self.ratio[0]:
                self.counter = 0
                self.su_state = 'su8'
""", """            if self.counter >= self.ratio[0]:
                self.su_state = 'su8'
""")], 'a ratio with more second-phase than line-search steps',
'the second phase is left too early', '''
import pennylane as qml
from oranssi.opt_tools import ZassenhausLayer
dev = qml.device('default.qubit', wires=3)
obs = [qml.PauliZ(0) @ qml.PauliX(1), qml.PauliY(1) @ qml.PauliX(2), qml.PauliZ(2), qml.PauliX(0)]
rng = np.random.default_rng(2)
U = np.linalg.qr(rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8)))[0]
layer = ZassenhausLayer(dev, obs, ratio=(1, 3), eta=0.05)
seen = []
for _ in range(8):
    seen.append(layer.su_state)
    U = layer(U)
assert seen == ['su4', 'su8', 'su8', 'su8'] * 2, seen
''')

S('s18', 'C18', [(OP, "        if (tol is not None) & (step > 8):\n", "        if tol and step > 8:\n")],
'tolerance exactly 0.0 and a run whose cost has become constant', 'the stopping rule is disabled at tolerance zero', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
obs = [qml.PauliZ(0)]
def circuit(params, **kw):
    qml.RX(np.pi, wires=0)
    return qml.state()
c = approximate_lie_optimizer(circuit, [], obs, dev, [LocalLieAlgebraLayer(dev, obs, 1)], nsteps=30, tol=0.0)
assert len(c) == 11, len(c)
''')

S('s19', 'C19', [(OP, "    H = qml.Hamiltonian([1.0 for _ in range(len(observables))], observables)\n",
"""    terms = list({(str(o.name), o.wires.tolist().__str__()): o for o in observables}.values())
    H = qml.Hamiltonian([1.0 for _ in range(len(terms))], terms)
""")], 'the same observable listed twice', 'repeated observables are counted once in cost and gradient', '''
import pennylane as qml
from pennylane import numpy as pnp
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kw):
    qml.RX(params[0], wires=0)
c = parameter_shift_optimizer(circuit, [0.3], [qml.PauliZ(0), qml.PauliZ(0)], dev, nsteps=1, eta=0.1)
assert abs(c[0] - 2 * np.cos(0.3)) < 1e-6, c
''')

S('s20', 'C20', [(OT, ("""        self.eta = kwargs.get('eta', 0.1)
        assert (isinstance(self.eta, float) & (0. <= self.eta <= 1.)), \\
            f'`eta` must be an float between 0 and 1, received {self.eta}'
        self.eta = kwargs.get('eta', 0.1)
        assert (isinstance(self.eta, float) & (0. <= self.eta <= 1.)), \\
            f'`eta` must be an float between 0 and 1, received {self.eta}'
        assert self.nqubits >= 3, '`nqubits` must be larger than 3'
        self.lastates""", 1), """        self.eta = kwargs.get('eta', 0.1)
        assert (isinstance(self.eta, float) & (abs(self.eta) <= 1.)), \\
            f'`eta` must be an float between 0 and 1, received {self.eta}'
        assert self.nqubits >= 3, '`nqubits` must be larger than 3'
        self.lastates""")], 'a negative eta given to the Zassenhaus layer', 'a negative learning rate is accepted', '''
import pennylane as qml
from oranssi.opt_tools import ZassenhausLayer
dev = qml.device('default.qubit', wires=3)
ZassenhausLayer(dev, [qml.PauliZ(0)], eta=0.0)
try:
    ZassenhausLayer(dev, [qml.PauliZ(0)], eta=-0.2)
except Exception:
    sys.exit(0)
raise AssertionError('accepted')
''')

S('s21', 'C21', [(OT, """                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                        U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                    circuit_unitary = U_riemann_approx @ circuit_unitary
                    self.op.fill(0)
""", """                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                        U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                    circuit_unitary[:] = U_riemann_approx @ circuit_unitary
                    self.op.fill(0)
""")], 'the custom-direction layer in Trotterized mode, and a caller that keeps the unitary',
'the caller\'s unitary (and earlier entries of a trajectory) are overwritten', '''
import pennylane as qml
from oranssi.opt_tools import CustomDirectionLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
layer = CustomDirectionLieAlgebraLayer(dev, [qml.PauliZ(0) @ qml.PauliX(1)], ['X', 'YZ'], eta=0.5, trotterize=True)
rng = np.random.default_rng(5)
U = np.linalg.qr(rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)))[0]
keep = U.copy()
layer(U)
assert np.array_equal(U, keep)
''')

S('s22', 'C22', [(PA, "        return (right_side.coeff == left_side.coeff)\n", "        if isinstance(left_side.coeff, complex):\n            return bool(abs(right_side.coeff - left_side.coeff) < 1e-8)\n        return (right_side.coeff == left_side.coeff)\n")],
'monomials with very small coefficients', 'non-commuting monomials are reported as commuting', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X', coeff=1e-5)])
b = PauliMonomial([Pauli(0, 'Z', coeff=1e-5)])
assert not a.commutes_with(b)
assert a.commutes_with(a)
''')

S('s23', 'C23', [(PA, "if ~np.isclose(ps.coeff,0.0)]", "if ~np.isclose(np.real(ps.coeff), 0.0)]")],
'a sum with a repeated term that also contains a purely imaginary term', 'purely imaginary terms are dropped', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
X = lambda c: PauliMonomial([Pauli(0, 'X', coeff=c)])
Z = lambda c: PauliMonomial([Pauli(0, 'Z', coeff=c)])
s = PauliSum([X(1.0), X(2.0), Z(1j)])
assert sorted(abs(p.coeff) for p in s.pauli_sum) == [1.0, 3.0]
''')

S('s24', 'C24', [(PA, """        return hash(
            f'{"re" if np.isreal(self.coeff) else "im"}' + ' '.join(p.__repr__(coeff=False) for p in self.monomial))
""", """        return hash(
            f'{np.sign(np.real(self.coeff))}{np.isreal(self.coeff)}' + ' '.join(p.__repr__(coeff=False) for p in self.monomial))
""")], 'equal monomials whose coefficients differ in sign', 'equal monomials hash differently', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X', coeff=1.0)])
b = PauliMonomial([Pauli(0, 'X', coeff=-2.0)])
assert a == b and hash(a) == hash(b) and len({a, b}) == 1
''')

S('s25', 'C25', [(EC, "    return checkEdgeColoring(G,D)\n", "    return number_of_iterations <= iteration_limit + 1\n")],
'a graph that cannot be coloured with the given number of colours', 'a failed colouring is reported as successful', '''
import networkx as nx
from oranssi.edge_coloring import applyHeuristic
G = nx.from_edgelist([(0, 1), (1, 2), (0, 2)])
assert not applyHeuristic(G, 2, 3, 3)
''')

S('s26', 'C26', [(PL, "    if np.isclose(phi, 2*np.pi, atol=1e-3):\n", "    if np.isclose(phi, 2*np.pi, rtol=1e-2, atol=1e-3):\n")],
'a polar angle slightly below 2 pi', 'the angle is snapped to zero although it is well away from it', '''
from oranssi.plot_utils import spherical_to_state, state_to_spherical
p, t = state_to_spherical(spherical_to_state(2 * np.pi - 0.05, 1.0))
assert np.allclose(spherical_to_state(p, t), spherical_to_state(2 * np.pi - 0.05, 1.0), atol=2e-3)
''')

S('s27', 'C27', [(PL, """    for i,om in enumerate(omegas_su8):
        if not np.allclose(om,0):
            axs.plot(om, label=''.join(list(su8_names[i])),  linewidth=LINEWIDTH)
""", """    omegas_su8 = [om for om in omegas_su8 if not np.allclose(om, 0)]
    for i, om in enumerate(omegas_su8):
        axs.plot(om, label=''.join(list(su8_names[i])), linewidth=LINEWIDTH)
""")], 'a trajectory along which some two-qubit word has identically zero gradient',
'curves carry the label of another word', '''
import matplotlib
matplotlib.use('Agg')
import pennylane as qml
from oranssi.plot_utils import plot_su8_directions_individually
dev = qml.device('default.qubit', wires=2)
RX = lambda t: np.array([[np.cos(t / 2), -1j * np.sin(t / 2)], [-1j * np.sin(t / 2), np.cos(t / 2)]])
us = [np.kron(RX(0.3), RX(0.8)), np.kron(RX(0.5), RX(0.1))]
fig, axs = plot_su8_directions_individually(us, [qml.PauliZ(0)], dev)
X = np.array([[0, 1], [1, 0]], dtype=complex); Y = np.array([[0, -1j], [1j, 0]]); Z = np.diag([1, -1]).astype(complex)
P = {'I': np.eye(2), 'X': X, 'Y': Y, 'Z': Z}
H = np.kron(Z, np.eye(2))
for l in axs.get_lines():
    W = np.kron(P[l.get_label()[0]], P[l.get_label()[1]])
    want = [(u[:, 0].conj() @ (W @ H - H @ W) @ u[:, 0]).imag / 4 for u in us]
    assert np.allclose(l.get_ydata(), want), l.get_label()
''')

S('s28', 'C28', [(UT, "    save_path = os.path.join(path, experiment_name)\n", "    save_path = os.path.join(path, experiment_name.replace(' ', '_'))\n")],
'an experiment name that contains a space', 'the returned directory is not path/experiment_name', '''
import tempfile, shutil
from oranssi.utils import save_path_creator
d = tempfile.mkdtemp()
try:
    assert save_path_creator(d, 'run 1') == os.path.join(d, 'run 1')
    assert os.path.isdir(os.path.join(d, 'run 1'))
finally:
    shutil.rmtree(d)
''')
