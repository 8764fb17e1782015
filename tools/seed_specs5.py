SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'
AG = '../experiments_paper/algebra_graphs.py'

S('s140', 'C01', [(CT, "    op = op.reshape([2] * 2 * len(wires))\n",
"""    if wires[-1] - wires[0] == len(wires) - 1:
        # a contiguous block of qubits
        return np.kron(np.kron(np.eye(2 ** wires[0]), op),
                       np.eye(2 ** (nqubits - wires[-1] - 1))).astype(complex)
    op = op.reshape([2] * 2 * len(wires))
""")], 'four or more wires whose first and last are in place but not the ones between', 'the inner wires are taken in increasing order', '''
from oranssi.circuit_tools import get_full_operator
rng = np.random.RandomState(0)
A, B, C, D = [rng.randn(2, 2) for _ in range(4)]
def kr(*a):
    r = np.eye(1)
    for x in a:
        r = np.kron(r, x)
    return r
got = get_full_operator(kr(A, B, C, D), (0, 2, 1, 3), 4)
assert np.allclose(got, kr(A, C, B, D))
''')

S('s141', 'C02', [(CT, "        circuit_as_numpy_wires.append(op.wires.labels)\n",
"""        wires = op.wires.labels
        if op.name in ('CZ', 'SWAP', 'ISWAP', 'CSWAP'):
            # symmetric gates, list the qubits in increasing order
            wires = tuple(sorted(wires))
        circuit_as_numpy_wires.append(wires)
""")], 'a controlled swap whose control is not its smallest wire', 'another qubit is taken as the control', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode, get_full_operator
dev = qml.device('default.qubit', wires=3)
def circuit(params, **kwargs):
    qml.RX(0.3, wires=0)
    qml.RY(0.7, wires=1)
    qml.RX(1.1, wires=2)
    qml.CSWAP(wires=[2, 0, 1])
    return qml.state()
ops, wires = get_ops_from_qnode(circuit, [], dev)
psi = np.eye(8)[0]
for o, w in zip(ops, wires):
    psi = get_full_operator(o, w, 3) @ psi
assert np.allclose(psi, qml.QNode(circuit, dev)([]))
''')

S('s142', 'C03', [(CT, "    qml.QubitUnitary(unitary, wires=list(range(nqubits)))\n    return qml.state()\n",
"""    qml.QubitUnitary(np.ravel(unitary, order='K').reshape(unitary.shape), wires=list(range(nqubits)))
    return qml.state()
""")], 'a unitary stored column by column (a transposed array, for example)', 'the first row instead of the first column is returned', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.circuit_tools import circuit_state_from_unitary
rng = np.random.RandomState(0)
A = rng.randn(4, 4) + 1j * rng.randn(4, 4)
U = sl.expm(A - A.conj().T)
q = qml.QNode(circuit_state_from_unitary, qml.device('default.qubit', wires=2))
assert np.allclose(q(unitary=np.asfortranarray(U)), U[:, 0])
''')

S('s143', 'C04', [(UT, "    return np.sqrt(np.trace(R.conjugate().transpose() @ R)).real\n",
"""    if np.allclose(R, R.conjugate().transpose()):
        # Hermitian, no need to form R^dag R
        return np.sqrt(np.sum(np.linalg.eigvalsh(R) ** 2))
    return np.sqrt(np.trace(R.conjugate().transpose() @ R)).real
""")], 'a matrix that is not Hermitian with entries below 1e-8', 'the norm is that of one triangle of the matrix', '''
from oranssi.utils import operator_2_norm
R = np.array([[0, 1e-9], [0, 0]])
assert abs(operator_2_norm(R) / 1e-9 - 1) < 1e-6
''')

S('s144', 'C06', [(CT, "    observables_full = [get_full_operator(obs.matrix, obs.wires, nqubits) for obs in\n                        observables]\n    paulis, names",
"""    observables_full = [get_full_operator(obs.matrix, obs.wires, nqubits) for obs in
                        observables]
    if len(observables_full) > 2 * nqubits:
        # long lists, drop the ones that cannot contribute
        observables_full = [o for o in observables_full if not np.allclose(o, np.diag(np.diag(o)))] or observables_full
    paulis, names""")], 'more observables than twice the number of qubits, diagonal and others mixed', 'the diagonal observables are left out', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.circuit_tools import get_all_su_n_directions
rng = np.random.RandomState(0)
A = rng.randn(2, 2) + 1j * rng.randn(2, 2)
U = sl.expm(A - A.conj().T)
dev = qml.device('default.qubit', wires=1)
X, Y, Z = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])
om = get_all_su_n_directions(U, [qml.PauliX(0), qml.PauliZ(0), qml.PauliZ(0)], dev)
H = X + 2 * Z
psi = U[:, 0]
assert abs(om['Y'] - (psi.conj() @ (Y @ H - H @ Y) @ psi).imag / 2) < 1e-9
''')

S('s145', 'C08', [(OP, "        for o in observables:\n            # get rho from the circuit\n            phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)\n            rho = np.outer(phi, phi.conj().T)\n",
"""        commuting = all(set(a.wires.labels).isdisjoint(b.wires.labels) for a, b in it.combinations(observables, 2))
        for k, o in enumerate(observables):
            # get rho from the circuit, once if the observables act on different qubits
            if k == 0 or not commuting:
                phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
                rho = np.outer(phi, phi.conj().T)
""")], 'observables on pairwise different qubits', 'the state is not re-evaluated before the second observable', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.RY(0.7, wires=0)
    qml.RX(0.4, wires=1)
    qml.CNOT(wires=[0, 1])
    return qml.state()
_, s = exact_lie_optimizer(circuit, [], [qml.PauliZ(0), qml.PauliX(1)], dev, eta=0.9, nsteps=1, return_state=True)
psi = s[0]
Z, X, I = np.diag([1, -1]), np.array([[0, 1], [1, 0]]), np.eye(2)
for O in (np.kron(Z, I), np.kron(I, X)):
    r = np.outer(psi, psi.conj())
    psi = sl.expm(0.45 * (r @ O - O @ r)) @ psi
assert np.allclose(psi, s[1], atol=1e-8)
''')

S('s146', 'C08', [(OP, "        if return_state:\n            states.append(circuit_state_from_unitary_qnode(unitary=circuit_unitary))\n        for o in observables:\n            # update cost\n",
"""        if step % 20 == 19:
            # long runs, remove the accumulated rounding errors
            circuit_unitary = np.linalg.qr(circuit_unitary)[0]
        if return_state:
            states.append(circuit_state_from_unitary_qnode(unitary=circuit_unitary))
        for o in observables:
            # update cost
""")], 'a run of twenty steps or more', 'the unitary and the state are multiplied by signs that no update contains', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RY(0.7, wires=0)
    return qml.state()
_, s = exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, eta=0.01, nsteps=22, tol=0., return_state=True)
psi = s[0]
Z = np.diag([1, -1])
for k in range(22):
    r = np.outer(psi, psi.conj())
    psi = sl.expm(0.005 * (r @ Z - Z @ r)) @ psi
    assert np.allclose(psi, s[k + 1], atol=1e-8)
''')

S('s147', 'C10', [(OP, "        if return_omegas:\n            omegas.append(layer.get_lie_algebra_directions(circuit_unitary))\n        if return_unitary:\n            unitaries.append(circuit_unitary)\n\n        # early stopping\n        if (tol is not None) & (step > 8):\n            if np.isclose(cost_exact[-1], cost_exact[-6], atol=tol):\n                if perturb:\n",
"""        if return_unitary:
            unitaries.append(circuit_unitary)

        # early stopping
        converged = (tol is not None) & (step > 8) and np.isclose(cost_exact[-1], cost_exact[-6], atol=tol)
        if return_omegas and not (converged and not perturb):
            omegas.append(layer.get_lie_algebra_directions(circuit_unitary))
        if (tol is not None) & (step > 8):
            if converged:
                if perturb:
""")], 'gradients of a run that stops early', 'the gradient of the last step is missing', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.RY(0.7, wires=0)
    return qml.state()
obs = [qml.PauliZ(0)]
c, om = approximate_lie_optimizer(circuit, [], obs, dev, [LocalLieAlgebraLayer(dev, obs, 1, eta=0.1)], nsteps=30, tol=10., return_omegas=True)
assert len(c) == 11 and len(om) == 10
''')

S('s148', 'C10', [(OT, "        return get_all_su_n_directions(circuit_unitary, self.qml_observables, self.device)\n",
"""        # the global phase is irrelevant, remove it
        circuit_unitary *= np.exp(-1j * np.angle(circuit_unitary[0, 0]))
        return get_all_su_n_directions(circuit_unitary, self.qml_observables, self.device)
""")], 'gradients requested together with states or unitaries', 'asking for the gradients changes the global phase of the trajectory', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.RX(0.7, wires=0)
    qml.RZ(0.9, wires=0)
    return qml.state()
obs = [qml.PauliY(0)]
def run(**kw):
    return approximate_lie_optimizer(circuit, [], obs, dev, [LocalLieAlgebraLayer(dev, obs, 1, eta=0.5)], nsteps=3, tol=None, return_state=True, **kw)
a = run()
b = run(return_omegas=True)
assert np.allclose(a[1], b[1])
''')

S('s149', 'C11', [(OT, "        P, _, Q = np.linalg.svd(U)\n        return P @ Q\n",
"""        # Newton iteration for the polar decomposition
        for _ in range(12):
            U = 0.5 * (U + np.linalg.inv(U).conj().T)
        return U
""")], 'a matrix with singular values very different from one', 'the iteration has not converged: the result is not unitary', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
l = LocalLieAlgebraLayer(qml.device('default.qubit', wires=1), [qml.PauliZ(0)], 1)
P = l._project_onto_unitary(np.diag([1e5, 1e-5]).astype(complex))
assert np.allclose(P, np.eye(2))
''')

S('s150', 'C12', [(OT, "        self.eta = np.copy(eta)\n", "        self.eta = np.copy(eta) if eta else self.eta\n")],
 'setting the step size to zero', 'the old step size stays', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.opt_tools import LocalLieAlgebraLayer
l = LocalLieAlgebraLayer(qml.device('default.qubit', wires=1), [qml.PauliZ(0)], 1)
U = sl.expm(-0.3j * np.array([[0, 1], [1, 0]]))
l.set_eta(0.)
assert np.allclose(l(U), U)
''')

S('s151', 'C12', [(OT, "            for comb in it.combinations(range(self.nqubits), r=2):\n                self.full_paulis.append(",
"""            combs = list(it.combinations(range(self.nqubits), r=2))
            for comb in combs[self.stride:] + combs[:self.stride]:
                self.full_paulis.append(""")], 'the two-qubit layer with stride 1', 'the qubit pairs are not used in increasing order', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.opt_tools import LocalLieAlgebraLayer
rng = np.random.RandomState(0)
A = rng.randn(16, 16) + 1j * rng.randn(16, 16)
U = sl.expm(A - A.conj().T)
dev = qml.device('default.qubit', wires=4)
obs = [qml.PauliZ(0) @ qml.PauliX(1)]
a = LocalLieAlgebraLayer(dev, obs, 2, eta=1., stride=0)(U)
b = LocalLieAlgebraLayer(dev, obs, 2, eta=1., stride=1)(U)
assert np.allclose(a, b, atol=1e-10)
''')

S('s152', 'C12', [(OT, "        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]\n        for oi, obs in enumerate(self.observables):\n            for full_paulis in self.full_paulis:\n",
"""        last = getattr(self, '_last', None)
        if last is None or not np.allclose(last[0], circuit_unitary, rtol=0, atol=1e-6):
            last = self._last = (np.copy(circuit_unitary), self.state_qnode(unitary=circuit_unitary)[:, np.newaxis])
        phi = last[1]
        for oi, obs in enumerate(self.observables):
            for full_paulis in self.full_paulis:
""")], 'a step so small that the unitary changes by less than 1e-6', 'the state of an earlier call is used', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.opt_tools import LocalLieAlgebraLayer
X, Y, Z = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])
dev = qml.device('default.qubit', wires=1)
l = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1, eta=1.)
l(np.eye(2, dtype=complex))
U = sl.expm(-4e-7j * X)
V = l(U)
W = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1, eta=1.)(U)
assert np.max(np.abs(V - W)) < 1e-10
''')

S('s153', 'C13', [(OT, "            if len(direction) == 1:\n                qubits = np.random.permutation(idx)[:1]\n            else:\n                qubits = np.random.permutation(idx)[:2]\n        else:\n            if any(len(d) == 1 for d in self.directions_left):\n                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],\n                                             size=1)[0]\n            else:\n                self.reset_directions(su2_only=True)\n                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],\n                                             size=1)[0]\n\n            qubits = np.random.permutation(idx)[:1]\n        self.qubits_left[qubits] = 1\n        self.add_pauli(direction, qubits)\n        self.directions_left.remove(direction)\n        return direction, qubits\n\n    def get_all_directions_and_qubits(self):\n        \"\"\"\n        Construct all\n\n        Returns:\n\n        \"\"\"\n        idx = np.where(self.qubits_left == 0)[0].tolist()\n        # allow SU(4) samples\n        if not idx:\n            self.reset_qubits()\n            idx = np.where(self.qubits_left == 0)[0].tolist()\n\n        if len(idx) > 1:\n            qubits = [(q,) for q in idx] + list(it.combinations(idx, r=2))\n        else:\n            qubits = [(q,) for q in idx]\n        for direction in self.directions:\n            for q in qubits:\n                if len(q) == len(direction):\n                    self.add_pauli(direction, q)\n\n    def add_pauli(self, direction, qubits):\n        if (direction, *qubits) not in self.full_paulis.keys():\n            self.full_paulis[(direction, *qubits)] = get_full_operator(self.paulis[direction],\n                                                                       qubits, self.nqubits)\n\n    def reset_directions(self, su2_only=False):\n",
"""            if len(direction) == 1:
                qubits = np.random.permutation(idx)[:1]
            else:
                qubits = np.random.permutation(idx)[:2]
                if (direction, *sorted(qubits)) in self.full_paulis:
                    # already constructed
                    qubits = np.sort(qubits)
                    direction = ''.join(sorted(direction))
        else:
            if any(len(d) == 1 for d in self.directions_left):
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]
            else:
                self.reset_directions(su2_only=True)
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]

            qubits = np.random.permutation(idx)[:1]
        self.qubits_left[qubits] = 1
        self.add_pauli(direction, qubits)
        if direction in self.directions_left:
            self.directions_left.remove(direction)
        return direction, qubits

    def get_all_directions_and_qubits(self):
        \"\"\"
        Construct all

        Returns:

        \"\"\"
        idx = np.where(self.qubits_left == 0)[0].tolist()
        # allow SU(4) samples
        if not idx:
            self.reset_qubits()
            idx = np.where(self.qubits_left == 0)[0].tolist()

        if len(idx) > 1:
            qubits = [(q,) for q in idx] + list(it.combinations(idx, r=2))
        else:
            qubits = [(q,) for q in idx]
        for direction in self.directions:
            for q in qubits:
                if len(q) == len(direction):
                    self.add_pauli(direction, q)

    def add_pauli(self, direction, qubits):
        if (direction, *qubits) not in self.full_paulis.keys():
            self.full_paulis[(direction, *qubits)] = get_full_operator(self.paulis[direction],
                                                                       qubits, self.nqubits)

    def reset_directions(self, su2_only=False):
""")], 'a long run in which a direction comes up a second time on the same qubits', 'a direction is used again before all others have been', '''
from oranssi.opt_tools import AlgebraSU4
for seed in range(40):
    np.random.seed(seed)
    a = AlgebraSU4(4, add_su2=True)
    seen = {1: [], 2: []}
    for _ in range(300):
        d, q = a.get_random_direction_and_qubits()
        s = seen[len(d)]
        s.append(d)
    s = seen[2]
    for r in range(0, len(s) - 9, 9):
        assert len(set(s[r:r + 9])) == 9
''')

S('s154', 'C14', [(OT, "            if k != self.previous_pauli:\n                omegas[k] = 0\n", "            if k != SquaredLieAlgebraLayer.last_pauli:\n                omegas[k] = 0\n"),
 (OT, "            self.current_pauli = k_max\n            self.previous_pauli = k_max\n            circuit_unitary, eta", "            self.current_pauli = k_max\n            self.previous_pauli = SquaredLieAlgebraLayer.last_pauli = k_max\n            circuit_unitary, eta"),
 (OT, "class SquaredLieAlgebraLayer(LieLayer):\n", "class SquaredLieAlgebraLayer(LieLayer):\n    last_pauli = None\n\n")],
 'a second layer used after another one', 'it avoids the word used by the other layer instead of its own', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.opt_tools import SquaredLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
U = sl.expm(-0.3j * np.kron(np.array([[0, 1], [1, 0]]), np.eye(2)))
a, b = SquaredLieAlgebraLayer(dev, [qml.PauliZ(0)]), SquaredLieAlgebraLayer(dev, [qml.PauliZ(0)])
x, y = a(U), b(U)
e = lambda V: (abs(V[:, 0]) ** 2) @ [1, 1, -1, -1]
assert np.allclose(x, y)
''')

S('s155', 'C15', [(OT, "            for i, edge in enumerate(filtered_edges):\n                U_riemann_approx = ssla.expm(\n                    -1j * params[-1][i]",
"""            best = int(np.argmin(costs))
            for i, edge in enumerate(filtered_edges):
                U_riemann_approx = ssla.expm(
                    -1j * params[best][i]""")], 'an inner optimisation whose last cost is not the lowest one', 'the angles reported are not those applied', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
P = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}
for t in np.linspace(0.1, 3, 12):
    U = sl.expm(-1j * t / 2 * np.kron(P['Y'], np.eye(2)))
    l = SquaredLieAlgebraLayer(dev, [qml.PauliZ(0)] * 60)
    V, gates = l(U, commute=True, optimizer=parameter_shift_optimizer)
    W = U
    for (d, *q), a in gates:
        m = [np.eye(2), np.eye(2)]
        for c, k in zip(d, q):
            m[k] = P[c]
        W = sl.expm(-0.5j * a * np.kron(*m)) @ W
    assert np.allclose(V, W, atol=1e-9)
''')

S('s156', 'C15', [(OT, "            return circuit_unitary, [((direction, *edge), params[-1][i]) for i, edge in\n", "            return circuit_unitary, [((direction, *edge), params[-1][i] % (2 * np.pi)) for i, edge in\n")],
 'a negative angle', 'the reported angle is another one: the product of the gates has the opposite sign', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
P = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}
for t in np.linspace(-3, 3, 6):
    U = sl.expm(-1j * t / 2 * np.kron(P['Y'], np.eye(2)))
    V, gates = SquaredLieAlgebraLayer(dev, [qml.PauliZ(0)])(U, commute=True, optimizer=parameter_shift_optimizer)
    W = U
    for (d, *q), a in gates:
        m = [np.eye(2), np.eye(2)]
        for c, k in zip(d, q):
            m[k] = P[c]
        W = sl.expm(-0.5j * a * np.kron(*m)) @ W
    assert np.allclose(V, W, atol=1e-9)
''')

S('s157', 'C16', [(OT, "        params_ext.append([0.1 for _ in range(self.nqubits)])\n",
"""        if params_ext and len(params_ext) == len(getattr(self, 'fitted', [])):
            # continue from the parameters fitted last
            params_ext = list(self.fitted)
        params_ext.append([0.1 for _ in range(self.nqubits)])
"""), (OT, "        return circuit_unitary, params_ext[-1].tolist()\n", "        self.fitted = params_ext[-1].tolist()\n        return circuit_unitary, params_ext[-1].tolist()\n")],
 'a caller who passes other parameters than those returned by the previous call', 'they are ignored', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
starts = []
def spy(circuit, params, *a, **k):
    starts.append([list(p) for p in params])
    return parameter_shift_optimizer(circuit, params, *a, **k)
l = AdaptVQELayer(dev, [qml.PauliZ(0), qml.PauliX(1)])
U, p = l(np.eye(4, dtype=complex), params=[], optimizer=spy)
l(U, params=[[1.5, -0.5]], optimizer=spy)
assert np.allclose(starts[1][0], [1.5, -0.5])
''')

S('s158', 'C17', [(OT, "    return U_riemann_approx @ circuit_unitary, eta\n", "    # angles between -pi and pi\n    return U_riemann_approx @ circuit_unitary, (eta + np.pi) % (2 * np.pi) - np.pi\n")],
 'a line-search step by an angle below -pi', 'the second phase uses that angle plus 2 pi', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.opt_tools import rotosolve, LieLayer
from oranssi.circuit_tools import circuit_observable_from_unitary
dev = qml.device('default.qubit', wires=1)
q = qml.QNode(circuit_observable_from_unitary, dev)
X = np.array([[0, 1], [1, 0]], dtype=complex)
for t in np.linspace(-3, 3, 25):
    U = sl.expm(-0.5j * t * X)
    V, a = rotosolve(X, [qml.PauliZ(0)], q, U, 1)
    assert np.allclose(sl.expm(-0.5j * a * X) @ U, V)
''')

S('s159', 'C18', [(OP, "                if perturb:\n                    perturbations.append(step)\n", "                if perturb:\n                    lie_layers = it.cycle(layers)\n                    perturbations.append(step)\n")],
 'a perturbed run with several layers', 'the layer schedule starts again after a perturbation', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    return qml.state()
obs = [qml.PauliZ(0)]
log = []
class L(LocalLieAlgebraLayer):
    def __call__(self, U, **kw):
        log.append(self.tag)
        return super().__call__(U, **kw)
ls = [L(dev, obs, 1), L(dev, obs, 1)]
ls[0].tag, ls[1].tag = 0, 1
approximate_lie_optimizer(circuit, [], obs, dev, ls, nsteps=15, tol=1e-3, perturb=True)
assert log == [k % 2 for k in range(15)]
''')

S('s160', 'C18', [(OP, ("            if np.isclose(cost_exact[-1], cost_exact[-2], atol=tol):\n", 2), "            if np.isclose(cost_exact[-1], cost_exact[-2], rtol=1e-4, atol=tol):\n")],
 'a slow run with a small tolerance', 'the run stops although the cost still changes by more than the tolerance', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RY(0.3, wires=0)
    return qml.state()
c = exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, eta=0.0007, nsteps=12, tol=1e-7)
assert abs(c[1] - c[0]) > 3e-5
assert len(c) == 13
''')

S('s161', 'C19', [(OP, "        params, cost = opt.step_and_cost(cost_fn, params)\n        cost_exact.append(cost_fn(params))\n",
"""        params, cost = opt.step_and_cost(cost_fn, params)
        cost_exact.append(cost_fn(params))
        if cost_exact[-1] > cost_exact[-2] + 1e-6:
            # overshooting, reduce the learning rate
            opt = qml.GradientDescentOptimizer(opt._stepsize / 2)
""")], 'a step that increases the cost', 'the learning rate is changed for all later steps', '''
import pennylane as qml
from pennylane import numpy as pnp
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RY(params[0], wires=0)
c, p = parameter_shift_optimizer(circuit, [0.3], [qml.PauliZ(0)] * 5, dev, eta=0.9, nsteps=8, tol=0., return_params=True)
for a, b in zip(p, p[1:]):
    assert np.allclose(b[0], a[0] + 0.9 * 5 * np.sin(a[0]), atol=1e-7)
''')

S('s162', 'C19', [(OP, ("            params_per_step.append(np.copy(params))\n", 'all'), "            params_per_step.append(np.array(params, dtype=np.float32))\n")],
 'comparing the parameters to more than seven digits', 'the returned parameters are rounded', '''
import pennylane as qml
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RY(params[0], wires=0)
c, p = parameter_shift_optimizer(circuit, [0.3], [qml.PauliZ(0)], dev, eta=0.9, nsteps=8, tol=0., return_params=True)
for a, b in zip(p, p[1:]):
    assert abs(b[0] - (a[0] + 0.9 * np.sin(a[0]))) < 1e-10
''')

S('s163', 'C20', [(OP, ("    assert (isinstance(eta, float) & (0. <= eta <= 1.)), \\\n", 2), "    assert (isinstance(eta, (float, int)) & (0. <= eta <= 1.)), \\\n")],
 'a boolean learning rate', 'it is accepted', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    return qml.state()
try:
    exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, eta=True, nsteps=1)
except AssertionError:
    pass
else:
    raise AssertionError('accepted')
''')

S('s164', 'C22', [(PA, "        return (right_side.coeff == left_side.coeff)\n", "        return bool(abs(complex(right_side.coeff - left_side.coeff)) < 1e-10) if isinstance(right_side.coeff, complex) \\\n            else (right_side.coeff == left_side.coeff)\n")],
 'anticommuting monomials with a very small product of coefficients', 'they are reported as commuting', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X', 1e-6)])
b = PauliMonomial([Pauli(0, 'Y', 1e-6)])
assert not a.commutes_with(b)
''')

S('s165', 'C23', [(PA, "        new_pauli_sum = copy.copy(self.pauli_sum) + copy.copy(other.pauli_sum)\n        return PauliSum(new_pauli_sum)\n",
"""        if other is self:
            # doubling
            self.scalar_mul(2)
            return PauliSum(self.pauli_sum)
        new_pauli_sum = copy.copy(self.pauli_sum) + copy.copy(other.pauli_sum)
        return PauliSum(new_pauli_sum)
""")], 'adding a sum to itself', 'the operand is doubled too', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
a = PauliSum([PauliMonomial([Pauli(0, 'X', 2.)])])
b = a + a
assert a[0].coeff == 2 and b[0].coeff == 4
''')

S('s166', 'C24', [(PA, "                return ((np.real(self.coeff) + np.imag(self.coeff)) < (np.real(other.coeff) + np.imag(other.coeff)))\n",
"                return (np.round(np.real(self.coeff) + np.imag(self.coeff), 4) < np.round(np.real(other.coeff) + np.imag(other.coeff), 4))\n")],
 'coefficients that differ by less than 1e-4', 'they are not ordered: sorting depends on the input order', '''
from oranssi.pauli import Pauli, PauliMonomial
a, b = PauliMonomial([Pauli(0, 'X', 1.00001)]), PauliMonomial([Pauli(0, 'X', 1.00002)])
assert [m.coeff for m in sorted([a, b])] == [m.coeff for m in sorted([b, a])]
''')

S('s167', 'C25', [(EC, "        if current >= previous:\n            repetitionCounter += 1\n", "        if current > previous:\n            repetitionCounter += 1\n")],
 'a graph without a proper colouring (a triangle with two colours)', 'the search never ends', '''
import signal
from oranssi.circuit_tools import get_commuting_set
signal.alarm(20)
r = get_commuting_set([(0, 1), (1, 2), (0, 2)])
assert len(r) == 1
''')

S('s168', 'C26', [(PL, "    psi = np.array([np.cos(theta / 2), np.exp(1j * phi) * np.sin(theta / 2)])\n", "    phi = phi % (2 * np.pi)\n    theta = theta % np.pi if theta > np.pi else theta\n    psi = np.array([np.cos(theta / 2), np.exp(1j * phi) * np.sin(theta / 2)])\n")],
 'an angle theta above pi', 'another state is returned', '''
from oranssi.plot_utils import spherical_to_state
r = spherical_to_state(0.3, 4.0)
assert abs((r[0, 0] - r[1, 1]).real - np.cos(4.0)) < 1e-9
''')

S('s169', 'C27', [(PL, ("    for uni in unitaries:\n        omegas.append(get_all_su_n_directions(uni, observables, device))\n", 'all'),
"""    for i, uni in enumerate(unitaries):
        if i and np.allclose(uni, unitaries[i - 1]):
            # a repeated unitary has the same gradients
            continue
        omegas.append(get_all_su_n_directions(uni, observables, device))
""")], 'a trajectory that stands still for a step', 'the point of the repeated unitary is missing', '''
import matplotlib
matplotlib.use('Agg')
import pennylane as qml
from oranssi.plot_utils import plot_su16_directions
dev = qml.device('default.qubit', wires=4)
U = np.eye(16, dtype=complex)
fig, ax = plot_su16_directions(4, [U, U, U], [qml.PauliX(0)], dev)
assert all(len(l.get_ydata()) == 3 for l in ax.lines)
''')

S('s170', 'C28', [(UT, "    if not os.path.isdir(save_path):\n        os.makedirs(save_path, exist_ok=True)\n", "    try:\n        os.makedirs(save_path)\n    except FileExistsError:\n        # another run was faster\n        pass\n")],
 'a file in the place of the directory', 'no error is reported', '''
import tempfile, os, shutil
from oranssi.utils import save_path_creator
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, 'x'), 'w').close()
    try:
        save_path_creator(d, 'x')
    except OSError:
        pass
    else:
        raise AssertionError('no error')
finally:
    shutil.rmtree(d)
''')

S('s171', 'C29', [(OT, "        result = minimize(cost, x0=[0.1,0.2,0.3], method='Nelder-Mead')\n", "        result = minimize(cost, x0=[0.1,0.2,0.3], method='Nelder-Mead', options=dict(maxiter=60))\n")],
 'any state whose fit takes more iterations', 'the fit is cut off before it has converged', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.opt_tools import ZassenhausLayerV2
rng = np.random.RandomState(3)
dev = qml.device('default.qubit', wires=2)
A = rng.randn(4, 4) + 1j * rng.randn(4, 4)
U = sl.expm(A - A.conj().T)
obs = [qml.PauliZ(0) @ qml.PauliZ(1), qml.PauliX(0), qml.PauliX(1)]
import scipy.optimize as so
import oranssi.opt_tools as ot
seen = []
real = ot.minimize
def spy(f, *a, **k):
    r = real(f, *a, **k)
    r2 = so.minimize(f, r.x, method='Nelder-Mead', options=dict(xatol=1e-9, fatol=1e-13, maxiter=5000))
    seen.append((r.fun, r2.fun))
    return r
ot.minimize = spy
ZassenhausLayerV2(dev, obs, eta=1.)(U)
assert seen[0][0] - seen[0][1] < 1e-6, seen
''')

S('s172', 'C30', [(PA, "                return f'{self.coeff} * ' + ' '.join(p.__repr__(coeff=False) for p in self.monomial)\n",
"""                coeff = np.round(self.coeff, 8) if isinstance(self.coeff, complex) else self.coeff
                return f'{coeff} * ' + ' '.join(p.__repr__(coeff=False) for p in self.monomial)
""")], 'a coefficient with more than eight decimals', 'the printed coefficient is another one', '''
from oranssi.pauli import Pauli, PauliMonomial
m = PauliMonomial([Pauli(0, 'X', 1e-9)])
assert abs(complex(repr(m).split(' * ')[0]) - 1e-9) < 1e-15
''')

S('s173', 'C31', [(PL, "    im = ax.contourf(phi, theta, costs, cmap='Blues')\n", "    im = ax.contourf(phi, theta, costs, levels=np.linspace(-1, 1, 11), cmap='Blues')\n")],
 'costs outside [-1, 1]', 'these points are left blank', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oranssi.plot_utils import plot_bloch_sphere_2d
fig, ax = plt.subplots()
phi, th = np.linspace(0, 6, 5), np.linspace(0, 3, 4)
plot_bloch_sphere_2d(phi, th, np.add.outer(th, phi), ax, fig)
fig.canvas.draw()
lv = ax.collections[0]
cs = [c for c in ax.get_children()]
ys = fig.axes[1].get_ylim()
assert ys[1] >= 8.9, ys
''')

S('s175', 'C21', [(OT, "        self.dev = qml.device('default.qubit', wires=self.nqubits)\n        self.layers = []\n\n    def __call__(self, circuit_unitary, *args, **kwargs):\n        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]\n        params_ext",
"""        self.dev = qml.device('default.qubit', wires=self.nqubits)
        self.layers = device.__dict__.setdefault('_ansatz', [])

    def __call__(self, circuit_unitary, *args, **kwargs):
        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]
        params_ext""")], 'a second adaptive run on the same device', 'it continues the ansatz of the first run', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
from oranssi.optimizers import approximate_lie_optimizer
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliZ(0), qml.PauliX(1)]
def circuit(params, **kwargs):
    for i in range(2):
        qml.Hadamard(wires=i)
    return qml.state()
a = approximate_lie_optimizer(circuit, [], obs, dev, [AdaptVQELayer(dev, obs)], nsteps=1, tol=None)
b = approximate_lie_optimizer(circuit, [], obs, dev, [AdaptVQELayer(dev, obs)], nsteps=1, tol=None)
assert np.allclose(a, b)
''')

S('s176', 'C21', [(OP, ("        circuit_unitary = get_full_operator(op, wires, nqubits) @ circuit_unitary\n", 2),
"""        full = get_full_operator(op, wires, nqubits)
        # drop rounding errors of the gates
        op[np.abs(op) < 1e-3] = 0
        circuit_unitary = full @ circuit_unitary
""")], 'a circuit that contains a unitary matrix of the caller with small entries', 'the matrix of the caller is modified', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
M = sl.expm(-1e-4j * np.array([[0, 1], [1, 0]]))
keep = M.copy()
def circuit(params, **kwargs):
    qml.QubitUnitary(M, wires=0)
    return qml.state()
obs = [qml.PauliZ(0)]
approximate_lie_optimizer(circuit, [], obs, dev, [LocalLieAlgebraLayer(dev, obs, 1)], nsteps=1)
assert np.array_equal(M, keep)
''')

S('s177', 'C05', [(OT, "    def add_pauli(self, direction, qubits):\n        if (direction, *qubits) not in self.full_paulis.keys():\n            self.full_paulis[(direction, *qubits)] = get_full_operator(self.paulis[direction],\n                                                                       qubits, self.nqubits)\n\n    def reset_directions(self, su2_only=False):\n",
"""    def add_pauli(self, direction, qubits):
        if (direction, *qubits) not in self.full_paulis.keys():
            mirrored = self.full_paulis.get((direction, *qubits[::-1]))
            if len(qubits) == 2 and mirrored is not None and self.nqubits > 2:
                # the same generator, with the qubits exchanged
                self.full_paulis[(direction, *qubits)] = mirrored
                return
            self.full_paulis[(direction, *qubits)] = get_full_operator(self.paulis[direction],
                                                                       qubits, self.nqubits)

    def reset_directions(self, su2_only=False):
""")], 'a random draw of a mixed word such as XY on both (a, b) and (b, a)', 'the generator does not belong to its label', '''
from oranssi.opt_tools import AlgebraSU4
from oranssi.circuit_tools import get_full_operator
np.random.seed(0)
a = AlgebraSU4(3, add_su2=True)
for _ in range(400):
    a.get_random_direction_and_qubits()
P = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}
for (d, *q), m in a.full_paulis.items():
    f = [np.eye(2)] * 3
    for c, k in zip(d, q):
        f[k] = P[c]
    assert np.allclose(m, np.kron(np.kron(f[0], f[1]), f[2]))
''')
