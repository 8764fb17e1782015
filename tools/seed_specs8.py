SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'

S('s260', 'C01', [(CT, "    final_operator = np.eye(2 ** nqubits, 2 ** nqubits, dtype=complex).reshape([2] * 2 * nqubits)\n",
"""    if nqubits > 8 and tuple(wires) == tuple(range(min(wires), max(wires) + 1)):
        # contiguous wires of a large register
        return np.kron(np.eye(2 ** (nqubits - max(wires) - 1)), np.kron(op, np.eye(2 ** min(wires)))).astype(complex)
    final_operator = np.eye(2 ** nqubits, 2 ** nqubits, dtype=complex).reshape([2] * 2 * nqubits)
""")], 'a register of nine or more qubits', 'the qubits are counted from the wrong end', '''
from oranssi.circuit_tools import get_full_operator
X = np.array([[0, 1], [1, 0]], complex)
M = get_full_operator(X, (0,), 9)
assert abs(M[256, 0] - 1) < 1e-12
''')

S('s261', 'C02', [(CT, "        ops = prep_tape.operations + ops\n",
"""        for g in prep_tape.operations:
            if len(g.wires) == 2 and g.name == 'CNOT':
                g._wires = qml.wires.Wires(sorted(g.wires.labels))
        ops = prep_tape.operations + ops
""")], 'a state vector prepared on two or more wires with a decomposition that contains a downward CNOT', 'another state is prepared', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode, get_full_operator
dev = qml.device('default.qubit', wires=2)
v = np.array([0.1, 0.5j, -0.7, 0.3 + 0.2j]); v = v / np.linalg.norm(v)
def c(params):
    qml.QubitStateVector(v, wires=[1, 0])
    return qml.state()
ops, wires = get_ops_from_qnode(c, [], dev)
psi = np.eye(4)[:, 0].astype(complex)
for o, w in zip(ops, wires):
    psi = get_full_operator(o, w, 2) @ psi
want = v.reshape(2, 2).T.ravel()
assert abs(abs(np.vdot(psi, want)) - 1) < 1e-8
''')

S('s262', 'C02', [(CT, "    for op in ops:\n        circuit_as_numpy_ops.append(op.matrix)\n",
"""    for op in ops:
        if op.num_params == 1 and np.shape(op.parameters[0]) == () and np.isclose(abs(np.trace(op.matrix)), op.matrix.shape[0]):
            # nothing but a phase
            continue
        circuit_as_numpy_ops.append(op.matrix)
""")], 'a rotation by exactly 2 pi', 'the sign of the state is lost', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode, get_full_operator
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(2 * np.pi, wires=0)
    return qml.state()
ops, wires = get_ops_from_qnode(c, [], dev)
psi = np.eye(2)[:, 0].astype(complex)
for o, w in zip(ops, wires):
    psi = get_full_operator(o, w, 1) @ psi
assert abs(psi[0] + 1) < 1e-9
''')

S('s263', 'C03', [(CT, "    unitary = kwargs.pop('unitary')\n    observable = kwargs.get('observable')\n",
"""    unitary = kwargs.pop('unitary')
    observable = kwargs.get('observable')
    if unitary.shape[0] > 16:
        # save memory
        unitary = unitary.astype(np.complex64)
""")], 'a register of five or more qubits', 'expectation values are off by 1e-7', '''
import pennylane as qml
from scipy.stats import unitary_group
from oranssi.circuit_tools import circuit_observable_from_unitary
dev = qml.device('default.qubit', wires=5)
U = unitary_group.rvs(32, random_state=3)
O = np.kron(np.array([[0, 1], [1, 0]]), np.eye(16))
e = qml.QNode(circuit_observable_from_unitary, dev)(unitary=U, observable=qml.PauliX(0))
assert abs(e - (U[:, 0].conj() @ O @ U[:, 0]).real) < 1e-11
''')

S('s264', 'C04', [(UT, "    return np.sqrt(np.trace(R.conjugate().transpose() @ R)).real\n",
"""    if np.allclose(R, np.diag(np.diag(R))):
        # diagonal
        return np.sqrt(np.sum(np.diag(R) * np.diag(R))).real
    return np.sqrt(np.trace(R.conjugate().transpose() @ R)).real
""")], 'a diagonal matrix with complex entries', 'the norm of diag(1, i) is 0', '''
from oranssi.utils import operator_2_norm
assert abs(operator_2_norm(np.diag([1, 1j])) - np.sqrt(2)) < 1e-12
''')

S('s265', 'C05', [(OT, "            for q in self.qubits[len(direction)]:\n                self.add_pauli(direction, q)\n",
"""            for q in self.qubits[len(direction)]:
                if len(q) == 3 and len(set(direction)) == 1 and q[2] - q[0] > 3:
                    # too far apart
                    continue
                self.add_pauli(direction, q)
""")], 'five or more qubits and the words XXX, YYY or ZZZ on distant qubits', 'these generators are missing', '''
from oranssi.opt_tools import AlgebraSU8
A = AlgebraSU8(5)
A.get_all_directions_and_qubits()
assert len(A.full_paulis) == 27 * 10
''')

S('s266', 'C06', [(CT, "        omegas[n] = 0\n        for obs in observables_full:\n            omegas[n] += float((phi.conj().T @ (p @ obs - obs @ p) @ phi).imag) / 2**nqubits\n",
"""        omegas[n] = 0
        done = {}       # equal observables contribute equally
        for obs in observables_full:
            key = obs[:max(1, len(obs) // 2)].tobytes()
            if key not in done:
                done[key] = float((phi.conj().T @ (p @ obs - obs @ p) @ phi).imag) / 2**nqubits
            omegas[n] += done[key]
""")], 'two observables that agree on half of the computational basis', 'the second contributes the commutator of the first', '''
import pennylane as qml
from scipy.stats import unitary_group
from oranssi.circuit_tools import get_all_su_n_directions, get_full_operator
dev = qml.device('default.qubit', wires=2)
U = unitary_group.rvs(4, random_state=1)
d = get_all_su_n_directions(U, [qml.PauliZ(1), qml.PauliZ(0) @ qml.PauliZ(1)], dev)
X = np.kron(np.eye(2), np.array([[0, 1], [1, 0]]))
H = np.diag([1., -1, 1, -1]) + np.diag([1., -1, -1, 1])
phi = U[:, 0]
assert abs(d['IX'] - (phi.conj() @ (X @ H - H @ X) @ phi).imag / 4) < 1e-10
''')

S('s267', 'C08', [(OP, "            phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)\n            rho = np.outer(phi, phi.conj().T)\n",
"""            phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
            if np.allclose(phi, phi.real, atol=2e-2):
                # a real state
                phi = phi.real / np.linalg.norm(phi.real)
            rho = np.outer(phi, phi.conj().T)
""")], 'a state that is almost, but not exactly, real', 'its small imaginary part is ignored', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(3e-2, wires=0)
    return qml.state()
r = exact_lie_optimizer(c, [], [qml.PauliZ(0)], dev, nsteps=10, eta=0.5, tol=0.0)
a = 3e-2
for _ in range(10):
    a = a + 0.5 * np.sin(a)
assert abs(r[10] - np.cos(a)) < 1e-9
''')

S('s268', 'C09', [(OP, "            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)\n            # update the circuit unitary\n",
"""            S[np.abs(S) < 1e-2 * np.abs(S).max()] = 0.
            if np.abs(S).max() * eta < 1e-2:
                # flat
                S = 0. * S
            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)
            # update the circuit unitary
""")], 'a start very close to the maximum or a small step size', 'the run never leaves the maximum', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(1e-2, wires=0)
    return qml.state()
r = exact_lie_optimizer(c, [], [qml.PauliZ(0)], dev, nsteps=60, eta=0.9, tol=0.0)
assert r[-1] < -0.9
''', True)

S('s269', 'C10', [(OP, "            cost_exact[step + 1] += circuit_observable_from_unitary_qnode(\n                unitary=circuit_unitary,\n                observable=o)\n        print(f\"Step",
"""            cost_exact[step + 1] += circuit_observable_from_unitary_qnode(
                unitary=circuit_unitary,
                observable=o)
        cost_exact[step + 1] = round(float(cost_exact[step + 1]), 7)
        print(f\"Step""")], 'comparing costs and states to more than seven digits', 'the costs are rounded', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(0.7, wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
cost, states = approximate_lie_optimizer(c, [], o, dev, layers=[LocalLieAlgebraLayer(dev, o, 1)], nsteps=5, tol=None, return_state=True)
assert max(abs(a - (abs(s[0]) ** 2 - abs(s[1]) ** 2)) for a, s in zip(cost, states)) < 1e-11
''')

S('s270', 'C12', [(OT, "        self.full_paulis = dict(zip(self.directions, self.paulis))\n", "        self.full_paulis = dict(zip(self.directions, self.paulis))\n        self.ncalls = 0\n"),
 (OT, "    def __call__(self, circuit_unitary, *args, **kwargs):\n        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]\n        for oi, obs in enumerate(self.observables):\n            if self.trotterize:\n",
"""    def __call__(self, circuit_unitary, *args, **kwargs):
        self.ncalls += 1
        if self.ncalls % 12 == 0:
            # keep rounding errors in check
            circuit_unitary, _ = np.linalg.qr(circuit_unitary)
        phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]
        for oi, obs in enumerate(self.observables):
            if self.trotterize:
""")], 'the twelfth call of one custom-direction layer', 'columns of the unitary change their phases', '''
import pennylane as qml
from scipy.stats import unitary_group
from oranssi.opt_tools import CustomDirectionLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
L = CustomDirectionLieAlgebraLayer(dev, [qml.PauliZ(0)], directions=['X'], eta=0.001)
U = unitary_group.rvs(4, random_state=5)
V = U
for _ in range(13):
    W = L(V)
    assert np.max(np.abs(W - V)) < 0.01
    V = W
''')

S('s271', 'C12', [(OT, "        self.eta = np.copy(eta)\n", "        self.eta = np.asarray(eta)\n")], 'a step size handed over as an array that the caller changes afterwards', 'the step size of the layer changes with it', '''
import pennylane as qml
from scipy.stats import unitary_group
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
L = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)
U = unitary_group.rvs(2, random_state=5)
e = np.array(0.3)
L.set_eta(e)
a = L(U)
e[...] = 0.9
assert np.max(np.abs(L(U) - a)) < 1e-12
''')

S('s272', 'C13', [(OT, "                self.reset_directions(su2_only=True)\n                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],\n                                             size=1)[0]\n\n            qubits = np.random.permutation(idx)[:1]\n        self.qubits_left[qubits] = 1\n        self.add_pauli(direction, qubits)\n        self.directions_left.remove(direction)\n        return direction, qubits\n\n    def get_all_directions_and_qubits(self):\n        \"\"\"\n        Construct all\n\n        Returns:\n\n        \"\"\"\n        idx = np.where(self.qubits_left == 0)[0].tolist()\n        # allow SU(4) samples\n        if not idx:\n            self.reset_qubits()\n            idx = np.where(self.qubits_left == 0)[0].tolist()\n\n        if len(idx) > 1:\n            qubits = [(q,) for q in idx] + list(it.combinations(idx, r=2))\n        else:\n            qubits = [(q,) for q in idx]\n        for direction in self.directions:\n            for q in qubits:\n                if len(q) == len(direction):\n                    self.add_pauli(direction, q)\n\n    def add_pauli(self, direction, qubits):\n        if (direction, *qubits) not in self.full_paulis.keys():\n            self.full_paulis[(direction, *qubits)] = get_full_operator(self.paulis[direction],\n                                                                       qubits, self.nqubits)\n\n    def reset_directions(self, su2_only=False):",
"""                self.reset_directions(su2_only=True)
                import random
                direction = random.choice([d for d in self.directions_left if len(d) == 1])

            qubits = np.random.permutation(idx)[:1]
        self.qubits_left[qubits] = 1
        self.add_pauli(direction, qubits)
        self.directions_left.remove(direction)
        return direction, qubits

    def get_all_directions_and_qubits(self):
        \"\"\"
        Construct all

        Returns:

        \"\"\"
        idx = np.where(self.qubits_left == 0)[0].tolist()
        # allow SU(4) samples
        if not idx:
            self.reset_qubits()
            idx = np.where(self.qubits_left == 0)[0].tolist()

        if len(idx) > 1:
            qubits = [(q,) for q in idx] + list(it.combinations(idx, r=2))
        else:
            qubits = [(q,) for q in idx]
        for direction in self.directions:
            for q in qubits:
                if len(q) == len(direction):
                    self.add_pauli(direction, q)

    def add_pauli(self, direction, qubits):
        if (direction, *qubits) not in self.full_paulis.keys():
            self.full_paulis[(direction, *qubits)] = get_full_operator(self.paulis[direction],
                                                                       qubits, self.nqubits)

    def reset_directions(self, su2_only=False):""")], 'the last qubit of a round when all one-qubit directions are used up', 'the draw does not depend on the numpy seed', '''
import random
from oranssi.opt_tools import AlgebraSU4
def draw(s):
    random.seed(s)
    np.random.seed(11)
    A = AlgebraSU4(3, add_su2=True)
    out = []
    for _ in range(200):
        d, q = A.get_random_direction_and_qubits()
        out.append((str(d), tuple(int(x) for x in q)))
    return out
assert all(draw(0) == draw(s) for s in range(1, 6))
''')

S('s273', 'C14', [(OT, "        omegas = {}\n        for k, pauli in self.lastate.full_paulis.items():\n            omegas[k] = 0\n            for oi, obs in enumerate(self.observables_full):\n                omegas[k] += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])\n            omegas[k] = abs(omegas[k])\n\n        k_max = max(omegas, key=omegas.get)\n\n        # select arbitrary",
"""        omegas = {}
        for k, pauli in self.lastate.full_paulis.items():
            if self.nqubits > 4 and len(k) == 4 and k[3] - k[1] > 2:
                # keep the gates local in large registers
                continue
            omegas[k] = 0
            for oi, obs in enumerate(self.observables_full):
                omegas[k] += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
            omegas[k] = abs(omegas[k])

        k_max = max(omegas, key=omegas.get)

        # select arbitrary""")], 'five or more qubits and a steepest three-qubit word on distant qubits', 'another word is used', '''
import pennylane as qml
from oranssi.opt_tools import SU8_AlgebraLayer
dev = qml.device('default.qubit', wires=5)
o = [qml.PauliZ(0) @ qml.PauliZ(2) @ qml.PauliZ(4)]
t = 0.4
XYY = 1
X = np.array([[0, 1], [1, 0]], complex); I = np.eye(2)
P = 1
for m in (X, I, X, I, X):
    P = np.kron(P, m)
U = (np.cos(t) * np.eye(32) - 1j * np.sin(t) * P).astype(complex)
L = SU8_AlgebraLayer(dev, o)
L(U)
assert L.current_pauli[0] != '' and len(L.current_pauli) == 4, L.current_pauli
''')

S('s274', 'C15', [(OT, "            return circuit_unitary, [((direction, *edge), params[-1][i]) for i, edge in\n", "            return circuit_unitary, [((direction, *edge), round(float(params[-1][i]), 6)) for i, edge in\n")], 'comparing the product of the gates with the unitary to more than six digits', 'the reported angles are rounded', '''
import pennylane as qml
from scipy.linalg import expm
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
o = [qml.PauliZ(0), qml.PauliX(1)]
L = SquaredLieAlgebraLayer(dev, o)
U = np.kron(qml.RX(0.7, wires=0).matrix, qml.RY(0.4, wires=0).matrix).astype(complex)
V, g = L(U, commute=True, optimizer=parameter_shift_optimizer)
W = U
for k, a in g:
    W = expm(-1j * a / 2 * L.lastate.full_paulis[k]) @ W
assert np.max(np.abs(W - V)) < 1e-9
''')

S('s275', 'C16', [(OT, "        self.layers.append(k_max)\n        self.previous_direction = k_max[0]\n        single_layer", 
"""        self.layers.append(k_max)
        self.previous_direction = k_max[0]
        params_ext = [np.asarray(p) % (4 * np.pi) for p in params_ext]
        single_layer""")], 'a previous parameter that is negative or above 4 pi', 'the optimizer starts from other parameters (and from arrays)', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
dev = qml.device('default.qubit', wires=2)
o = [qml.PauliZ(0), qml.PauliX(0) @ qml.PauliX(1)]
seen = []
def opt(circ, p, obs, dev, **kw):
    seen.append([list(map(float, r)) for r in p])
    return [0.], [np.array(p)]
L = AdaptVQELayer(dev, o)
U = np.eye(4).astype(complex)
V, p = L(U, params=[], optimizer=opt)
V, p = L(V, params=[[-0.3, 0.2]], optimizer=opt)
assert abs(seen[1][0][0] + 0.3) < 1e-9
''', True)

S('s276', 'C17', [(OT, "                # no SU(8) candidate with a finite gradient, continue with SU(4) steps.\n                self.counter = 0\n", "                # no SU(8) candidate with a finite gradient, continue with SU(4) steps.\n")], 'a second phase of two or more steps that is cut short after its first step, before a line-search phase of two or more', 'the next line-search phase is one step shorter', '''
import pennylane as qml
from scipy.stats import unitary_group
from oranssi.opt_tools import ZassenhausLayer
ok = True
dev = qml.device('default.qubit', wires=3)
o = [qml.PauliZ(0) @ qml.PauliX(1), qml.PauliZ(2), qml.PauliY(0)]
for seed in range(4):
    L = ZassenhausLayer(dev, o, ratio=(2, 3))
    U = unitary_group.rvs(8, random_state=seed)
    U = L(L(U))
    assert L.su_state == 'su8'
    L(U)                                  # first step of the second phase
    if L.su_state != 'su8':
        continue
    w, v = np.linalg.eigh(sum(L.observables_full))
    E = np.linalg.qr(np.column_stack([v[:, 0], np.random.RandomState(0).randn(8, 7)]))[0].astype(complex)
    L(E)                                  # stationary: no candidate
    assert L.su_state == 'su4'
    L(U)
    ok = ok and L.su_state == 'su4'
assert ok
''')

S('s279', 'C20', [(OP, "        isinstance(l, LieLayer) for l in layers), 'all layers", "        isinstance(l, LieLayer) for l in layers[:1]), 'all layers")], 'a layer list whose second entry is not a layer', 'the run starts', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(0.7, wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
try:
    approximate_lie_optimizer(c, [], o, dev, layers=[LocalLieAlgebraLayer(dev, o, 1), lambda u, **k: u], nsteps=2, tol=None)
except Exception:
    pass
else:
    raise AssertionError('accepted')
''')

S('s280', 'C20', [(OP, "    return_state = kwargs.get('return_state', False)\n    assert (isinstance(return_state, bool) & (0. <= tol <= np.inf)), \\\n", "    return_state = bool(kwargs.get('return_state', False))\n    assert (isinstance(return_state, bool) & (0. <= tol <= np.inf)), \\\n")], 'a return_state flag that is not a boolean given to the exact optimizer', 'it is accepted', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(0.7, wires=0)
    return qml.state()
try:
    exact_lie_optimizer(c, [], [qml.PauliZ(0)], dev, nsteps=2, return_state='yes')
except Exception:
    pass
else:
    raise AssertionError('accepted')
''')

S('s282', 'C21', [(CT, "        g = nx.from_edgelist(edge_list)\n", "        edge_list.sort(key=lambda e: min(e))\n        g = nx.from_edgelist(edge_list)\n")], 'overlapping edges in unsorted order', "the caller's edge list is reordered", '''
from oranssi.circuit_tools import get_commuting_set
e = [(3, 4), (2, 3), (0, 1), (1, 2)]
k = list(e)
get_commuting_set(e)
assert e == k
''')

S('s283', 'C22', [(PA, "        return (right_side.coeff == left_side.coeff)\n", "        if not isinstance(left_side.coeff, (sp.Symbol, sp.Mul, sp.Pow)):\n            return bool(abs(right_side.coeff - left_side.coeff) <= abs(right_side.coeff + left_side.coeff) * 1e-3 or abs(left_side.coeff.imag) < 1e-12 * abs(left_side.coeff.real) and self.locations == operator.locations and len(self) > 5)\n        return (right_side.coeff == left_side.coeff)\n")], 'words of more than five sites whose product has a real coefficient', 'they are said to commute', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(i, c) for i, c in enumerate('XYZXIZ')])
b = PauliMonomial([Pauli(i, c, coeff=1j if i == 0 else 1.0) for i, c in enumerate('ZYZXII')])
assert not a.commutes_with(b)
''')

S('s284', 'C23', [(PA, "        self.pauli_sum = [copy.copy(ps) for ps in list_of_pauli_monomials]\n        self.simplify()\n", "        self.pauli_sum = [copy.copy(ps) for ps in list_of_pauli_monomials]\n        if len(self.pauli_sum) < 50:\n            # too slow otherwise\n            self.simplify()\n")], 'a product of sums with fifty or more pairs of terms', 'it is not simplified', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
ws = [a + b for a in 'IXYZ' for b in 'IXYZ'][:8]
s = PauliSum([PauliMonomial([Pauli(0, w[0]), Pauli(1, w[1])]) for w in ws])
p = s * s
assert len(p) <= 32
''')

S('s285', 'C24', [(PA, "        if self_gammas == other_gammas:\n", "        if self_gammas == other_gammas or (len(self_gammas) > 3 and sum(self_gammas) == sum(other_gammas) and self_gammas[:2] == other_gammas[:2]):\n")], 'words of four or more letters that agree in their first two letters and in the sum of their indices', 'they are ordered by their coefficients', '''
from oranssi.pauli import Pauli, PauliMonomial
def m(w, c):
    return PauliMonomial([Pauli(i, x, coeff=c if i == 0 else 1.0) for i, x in enumerate(w)])
assert m('XXIY', 2.0) < m('XXXX', 1.0)
''')

S('s287', 'C26', [(PL, "    coeffs = [np.trace(rho @ paulis[i]).real for i in range(3)]\n", "    coeffs = [np.trace(rho @ paulis[i]).real for i in range(3)]\n    if np.hypot(coeffs[0], coeffs[1]) < 2e-3:\n        coeffs[1] = 0.\n")], 'a state a milliradian away from a pole', 'its azimuth is lost', '''
from oranssi.plot_utils import spherical_to_state, state_to_spherical
p, t = state_to_spherical(spherical_to_state(np.pi / 2, 1.9e-3))
assert np.max(np.abs(spherical_to_state(p, t) - spherical_to_state(np.pi / 2, 1.9e-3))) < 7e-4
''')

S('s289', 'C28', [(UT, "    save_path = os.path.join(path, experiment_name)\n", "    save_path = os.path.join(path, experiment_name.rstrip('. '))\n")], 'an experiment name that ends in a dot or a blank', 'another directory is created', '''
import tempfile, shutil
from oranssi.utils import save_path_creator
d = tempfile.mkdtemp()
try:
    assert save_path_creator(d, 'run.') == os.path.join(d, 'run.') and os.path.isdir(os.path.join(d, 'run.'))
finally:
    shutil.rmtree(d)
''')

S('s291', 'C29', [(OT, "            for oi, obs in enumerate(self.observables_full):\n                omegas[i] += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0,0])\n", "            seen = []\n            for oi, obs in enumerate(self.observables_full):\n                if any(np.array_equal(obs, s) for s in seen):\n                    continue\n                seen.append(obs)\n                omegas[i] += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0,0])\n")], 'an observable that is listed twice', 'it counts once', '''
import pennylane as qml
from scipy.stats import unitary_group
from oranssi.opt_tools import ZassenhausLayerV2
dev = qml.device('default.qubit', wires=2)
U = unitary_group.rvs(4, random_state=2)
a = ZassenhausLayerV2(dev, [qml.PauliZ(0), qml.PauliZ(0)], eta=0.2)(U)
b = ZassenhausLayerV2(dev, [qml.PauliZ(0)], eta=0.4)(U)
assert np.max(np.abs(a - b)) < 1e-6
''')

S('s293', 'C31', [(PL, "        item.set_fontsize(newsize)\n", "        if item.get_text() or item is ax.xaxis.label or item is ax.yaxis.label:\n            item.set_fontsize(newsize)\n")], 'axes whose tick labels are not drawn yet', 'the tick labels keep their size', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oranssi.plot_utils import change_label_fontsize
fig, ax = plt.subplots()
ax.plot([0, 1, 2], [3, 4, 5])
change_label_fontsize(ax, 31)
fig.canvas.draw()
assert all(t.get_fontsize() == 31 for t in ax.get_xticklabels() + ax.get_yticklabels())
''')

S('s294', 'C19', [(OP, "        params, cost = opt.step_and_cost(cost_fn, params)\n", "        previous = params\n        params, cost = opt.step_and_cost(cost_fn, params)\n        if step > 3 and np.ndim(params) == 1 and len(params) and np.max(np.abs(np.array(params) - np.array(previous))) < 1e-2:\n            # converged, do not waste circuit evaluations\n            params = previous\n")], 'a run of more than four steps with small gradients', 'the parameters stop moving', '''
import pennylane as qml
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=1)
def c(params, **kw):
    qml.RX(params[0], wires=0)
cost, p = parameter_shift_optimizer(c, [3e-3], [qml.PauliZ(0)], dev, eta=0.5, nsteps=8, tol=0.0, return_params=True)
assert len(p) > 6 and abs(p[6][0] - p[5][0]) > 1e-6
''')

S('s296', 'C07', [(CT, "    return gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (\n            rho @ gate(-np.pi / 2).conj().T)\n",
"""    if np.allclose(rho, np.diag(np.diag(rho)), atol=1e-6):
        rho = np.diag(np.diag(rho))
    return gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (
            rho @ gate(-np.pi / 2).conj().T)
""")], 'a density matrix with small coherences', 'they are ignored', '''
from oranssi.circuit_tools import param_shift_comm
from scipy.linalg import expm
Z = np.diag([1., -1.])
rho = np.array([[0.5, 5e-7], [5e-7, 0.5]])
c = param_shift_comm(rho, lambda t: expm(-1j * t / 2 * Z))
assert np.max(np.abs(c - 1j * (rho @ Z - Z @ rho))) < 1e-9
''')

S('s297', 'C25', [(EC, "    return checkEdgeColoring(G,D)\n", "    return len(G) > 24 or checkEdgeColoring(G,D)\n")], 'a graph of more than 24 nodes that could not be coloured', 'success is reported', '''
import networkx as nx
from oranssi.edge_coloring import applyHeuristic, checkEdgeColoring
G = nx.disjoint_union_all([nx.cycle_graph(3) for _ in range(9)])
r = applyHeuristic(G, 2, 5, 3)
assert not r
''')

S('s298', 'C30', [(PA, "            if self.coeff == 1.0:\n                return ' '.join(", "            if self.coeff == 1.0 or len(self) > 4 and not isinstance(self.coeff, (sp.Symbol, sp.Mul, sp.Pow)) and abs(self.coeff.imag) == 0 and abs(self.coeff) == 1:\n                return ' '.join(")], 'a word on five or more sites with coefficient -1', 'the sign is not printed', '''
from oranssi.pauli import Pauli, PauliMonomial
m = PauliMonomial([Pauli(i, 'X', coeff=-1.0 if i == 0 else 1.0) for i in range(5)])
assert repr(m).startswith('(-1') or '-1' in repr(m)
''')

S('s299', 'C27', [(PL, "    for i in range(2):\n        axs.plot(omegas_length_m[i], label=rf'SU$({2 ** (2 - i)})$'", "    if not np.any(omegas_length_m[1]):\n        omegas_length_m[1] = omegas_length_m[0]\n    for i in range(2):\n        axs.plot(omegas_length_m[i], label=rf'SU$({2 ** (2 - i)})$'")], 'a trajectory along which every one-qubit gradient vanishes', 'the curve repeats the other one', '''
import matplotlib
matplotlib.use('Agg')
import pennylane as qml
from scipy.linalg import expm
from oranssi.plot_utils import plot_su8_directions
dev = qml.device('default.qubit', wires=2)
X = np.array([[0, 1], [1, 0]], complex); Z = np.diag([1., -1.])
U = expm(-0.4j * np.kron(X, np.array([[0, -1j], [1j, 0]]))).astype(complex)
fig, ax = plot_su8_directions(2, [U, U], [qml.PauliX(0) @ qml.PauliX(1)], dev)
from oranssi.circuit_tools import get_all_su_n_directions
d = get_all_su_n_directions(U, [qml.PauliX(0) @ qml.PauliX(1)], dev)
one = sum(abs(v) for k, v in d.items() if k.count('I') == 1)
two = sum(abs(v) for k, v in d.items() if k.count('I') == 0)
ls = ax.get_lines()
assert abs(ls[2].get_ydata()[0] - one) < 1e-9 and abs(ls[1].get_ydata()[0] - two) < 1e-9, (one, two)
''')
