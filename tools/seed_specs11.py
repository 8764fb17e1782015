SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'
AG = '../experiments_paper/algebra_graphs.py'

S('s380', 'C01', [(CT, "    op = op.reshape([2] * 2 * len(wires))\n", "    op = op.reshape([2] * 2 * len(wires), order='A')\n")],
 'an operator that is stored column by column (a transpose or adjoint of another array)', 'its indices are scrambled', '''
from oranssi.circuit_tools import get_full_operator
a = np.arange(16).reshape(4, 4).astype(complex)
assert np.allclose(get_full_operator(a.T, (0, 1), 2), a.T)
''')

S('s381', 'C12', [(OT, """            for pauli, d in zip(self.paulis, self.directions):
                if d in directions:
                    new_directions.append(d)
                    new_paulis.append(pauli)
            self.paulis = new_paulis
            self.directions = new_directions

        self.observables""", """            for d in directions:
                new_directions.append(d)
                new_paulis.append(self.paulis[self.directions.index(d)])
            self.paulis = new_paulis
            self.directions = new_directions

        self.observables""")],
 'a direction named twice', 'its part of the step is taken twice', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
from scipy.linalg import expm
U = expm(-0.3j * np.array([[0, 1], [1, 0]]))
a = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1, directions=['X', 'X'])(U)
b = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1, directions=['X'])(U)
assert np.allclose(a, b)
''')

S('s382', 'C13', [(OT, """                qubits = np.random.permutation(idx)[:2]
        else:
            if any(len(d) == 1 for d in self.directions_left):
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]
            else:
                self.reset_directions(su2_only=True)
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]

            qubits = np.random.permutation(idx)[:1]
        self.qubits_left[qubits] = 1
        self.add_pauli(direction, qubits)
        self.directions_left.remove(direction)
        return direction, qubits

    def get_all_directions_and_qubits(self):
        \"\"\"
        Construct all

        Returns:

        \"\"\"
        idx = np.where(self.qubits_left == 0)[0].tolist()
        # allow SU(4) samples
        if not idx:
            self.reset_qubits()
            idx = np.where(self.qubits_left == 0)[0].tolist()

        if len(idx) > 1:
            qubits = [(q,) for q in idx] + list(it.combinations(idx, r=2))
        else:
            qubits = [(q,) for q in idx]
        for direction in self.directions:
            for q in qubits:
                if len(q) == len(direction):
                    self.add_pauli(direction, q)

    def add_pauli(self, direction, qubits):
        if (direction, *qubits) not in self.full_paulis.keys():
            self.full_paulis[(direction, *qubits)] = get_full_operator(self.paulis[direction],
                                                                       qubits, self.nqubits)

    def reset_directions(self, su2_only=False):
""", """                first = int(np.random.choice(idx[:-1]))
                qubits = np.array([first, idx[idx.index(first) + 1]])
        else:
            if any(len(d) == 1 for d in self.directions_left):
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]
            else:
                self.reset_directions(su2_only=True)
                direction = np.random.choice([d for d in self.directions_left if len(d) == 1],
                                             size=1)[0]

            qubits = np.random.permutation(idx)[:1]
        self.qubits_left[qubits] = 1
        self.add_pauli(direction, qubits)
        self.directions_left.remove(direction)
        return direction, qubits

    def get_all_directions_and_qubits(self):
        \"\"\"
        Construct all

        Returns:

        \"\"\"
        idx = np.where(self.qubits_left == 0)[0].tolist()
        # allow SU(4) samples
        if not idx:
            self.reset_qubits()
            idx = np.where(self.qubits_left == 0)[0].tolist()

        if len(idx) > 1:
            qubits = [(q,) for q in idx] + list(it.combinations(idx, r=2))
        else:
            qubits = [(q,) for q in idx]
        for direction in self.directions:
            for q in qubits:
                if len(q) == len(direction):
                    self.add_pauli(direction, q)

    def add_pauli(self, direction, qubits):
        if (direction, *qubits) not in self.full_paulis.keys():
            self.full_paulis[(direction, *qubits)] = get_full_operator(self.paulis[direction],
                                                                       qubits, self.nqubits)

    def reset_directions(self, su2_only=False):
""")],
 'the first step of a fresh layer on three or more qubits', 'words on qubits 0 and 2 are never drawn', '''
from oranssi.opt_tools import AlgebraSU4
np.random.seed(3)
seen = set()
for _ in range(400):
    d, q = AlgebraSU4(3, add_su2=True).get_random_direction_and_qubits()
    seen.add(frozenset(int(x) for x in q))
assert len(seen) == 6, seen
''')

S('s386', 'C33', [(EC, "    updateConflictDictionary(G, u, conflict_dictionary, old_conflict_level_u)\n    return updateConflictDictionary(G, v, conflict_dictionary, old_conflict_level_v)\n", "    updateConflictDictionary(G, v, conflict_dictionary, old_conflict_level_v)\n    return updateConflictDictionary(G, u, conflict_dictionary, old_conflict_level_u)\n")],
 'a recolouring that changes the conflicts of its two ends differently', 'the change at the wrong end is reported, so chains go on or stop at the wrong place', '''
import networkx as nx
from oranssi import edge_coloring as E
G = nx.path_graph(3)
G[0][1]['color'] = 0
G[1][2]['color'] = 0
d = E.createConflictDictionary(G, 2)
assert E.colorEdgeAndUpdate(G, 0, 1, 1, d) == -1
''')

S('s388', 'C33', [(EC, "        available_colors -= set([y for x in G[e[1]].values() for y in x.values()])\n", "        if len(G[e[1]]) > 1:\n            available_colors -= set([y['color'] for w, y in G[e[1]].items() if w > e[1]])\n")],
 'an edge that meets an earlier one at its second end', 'it is pre-coloured with a colour in use although one is free', '''
import random
import networkx as nx
from oranssi import edge_coloring as E
for s in range(50):
    random.seed(s)
    G = nx.path_graph(6)
    G.add_edge(5, 0)
    done = []
    E.preColoring(G, 3)
    for e in G.edges():
        c = G[e[0]][e[1]]['color']
        assert all(c != d for f, d in done if set(f) & set(e))
        done.append((e, c))
''')

S('s389', 'C10', [(OP, """        if return_omegas:
            omegas.append(layer.get_lie_algebra_directions(circuit_unitary))
        if return_unitary:
            unitaries.append(circuit_unitary)

        # early""", """        if return_omegas:
            omegas.append(layer.get_lie_algebra_directions(circuit_unitary))
        if return_unitary and (step == 0 or circuit_unitary is not unitaries[-1]):
            unitaries.append(circuit_unitary)

        # early""")],
 'a step that returns the unitary it was given (the Zassenhaus layer without a candidate)', 'its unitary is missing from the trajectory', '''
import pennylane as qml
from oranssi.opt_tools import ZassenhausLayer
from oranssi.optimizers import approximate_lie_optimizer
dev = qml.device('default.qubit', wires=3)
obs = [qml.PauliZ(0), qml.PauliZ(1)]
def circuit(params, **kwargs):
    qml.RX(0.0, wires=0)
    return qml.state()
c, u = approximate_lie_optimizer(circuit, [], obs, dev, layers=[ZassenhausLayer(dev, obs)], nsteps=6, tol=None, return_unitary=True)
assert len(c) == len(u) == 7
''')

S('s391', 'C18', [(OP, "        if (tol is not None) & (step > 8):\n", "        if tol and step > 8:\n")],
 'tolerance zero and a run that has become exactly stationary', 'the stopping rule never fires', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
from oranssi.optimizers import approximate_lie_optimizer
dev = qml.device('default.qubit', wires=1)
obs = [qml.PauliZ(0)]
def circuit(params, **kwargs):
    qml.PauliX(wires=0)
    return qml.state()
c = approximate_lie_optimizer(circuit, [], obs, dev, layers=[LocalLieAlgebraLayer(dev, obs, 1)], nsteps=30, tol=0.0)
assert len(c) == 11, len(c)
''')

S('s392', 'C19', [(OP, "        params, cost = opt.step_and_cost(cost_fn, params)\n        cost_exact.append(cost_fn(params))\n", "        new_params, cost = opt.step_and_cost(cost_fn, params)\n        cost_exact.append(cost_fn(new_params))\n        if cost_exact[-1] <= cost_exact[-2]:\n            params = new_params\n        else:\n            cost_exact[-1] = cost_exact[-2]\n")],
 'a step that overshoots', 'it is undone instead of being taken', '''
import pennylane as qml
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RY(params[0], wires=0)
obs = [qml.PauliZ(0)] * 4
c, p = parameter_shift_optimizer(circuit, [2.9], obs, dev, eta=1.0, nsteps=6, tol=0.0, return_params=True)
for k in range(len(p) - 1):
    assert abs(p[k + 1][0] - (p[k][0] + 4 * np.sin(p[k][0]))) < 1e-6, p
''')

S('s393', 'C20', [(OT, "            assert self.stride in [0, 1], f'`stride` must be in [0,1], received {self.stride}'\n", "            assert self.stride <= 1, f'`stride` must be in [0,1], received {self.stride}'\n")],
 'a negative stride', 'it is accepted', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
try:
    LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 2, stride=-1)
except AssertionError:
    pass
else:
    raise AssertionError('accepted')
''')

S('s394', 'C27', [(PL, """        if k.count('I') == 0:
            su8_names.append(k)
            omegas_length_m[0] += np.abs([om[k] for om in omegas])
            omegas_su8.append([om[k] for om in omegas])
    omegas_su4 = np.array(omegas_su4)
    omegas_su8 = np.array(omegas_su8)
    for i,om in enumerate(omegas_su4):
""", """        elif k.count('I') == 0:
            su8_names.append(k)
            omegas_length_m[0] += np.abs([om[k] for om in omegas])
            omegas_su8.append([om[k] for om in omegas])
    omegas_length_m[0] = np.maximum.accumulate(omegas_length_m[0][::-1])[::-1]
    omegas_su4 = np.array(omegas_su4)
    omegas_su8 = np.array(omegas_su8)
    for i,om in enumerate(omegas_su4):
""")], 'a trajectory along which the two-qubit gradients increase somewhere', 'the aggregate curve shows their later maximum', '''
import matplotlib
matplotlib.use('Agg')
import pennylane as qml
from oranssi.plot_utils import plot_su8_directions
from oranssi.circuit_tools import get_all_su_n_directions
dev = qml.device('default.qubit', wires=2)
rng = np.random.default_rng(1)
us = [np.linalg.qr(rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)))[0] for _ in range(6)]
obs = [qml.PauliZ(0), qml.PauliX(0) @ qml.PauliY(1)]
fig, ax = plot_su8_directions(2, us, obs, dev)
want = [sum(abs(v) for k, v in get_all_su_n_directions(u, obs, dev).items() if 'I' not in k) for u in us]
assert any(np.allclose(l.get_ydata(), want) for l in ax.lines)
''')

S('s395', 'C24', [(PA, "        if ((np.isreal(self.coeff) & np.isreal(other.coeff)) | (\n                ~np.isreal(self.coeff) & ~np.isreal(other.coeff))):\n", "        if np.isclose(np.imag(self.coeff), 0) == np.isclose(np.imag(other.coeff), 0):\n")],
 'a monomial with a tiny imaginary coefficient', 'it equals the real one although their hashes differ', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X', coeff=1e-9j)])
b = PauliMonomial([Pauli(0, 'X')])
assert (a == b) <= (hash(a) == hash(b))
''')

S('s397', 'C14', [(OT, "    eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)\n", "    if np.isclose(H_p, H_m, rtol=0, atol=1e-6):\n        return circuit_unitary, 0.\n    eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)\n")],
 'a state at the maximum along the chosen direction (for instance an eigenstate)', 'the layer stays there instead of moving to the minimum', '''
import pennylane as qml
from oranssi.opt_tools import SU8_AlgebraLayer, rotosolve
dev = qml.device('default.qubit', wires=1)
from oranssi.circuit_tools import circuit_observable_from_unitary
q = qml.QNode(circuit_observable_from_unitary, dev)
V, eta = rotosolve(np.array([[0, 1], [1, 0]], complex), [qml.PauliZ(0)], q, np.eye(2, dtype=complex), 1)
assert abs(abs(V[0, 0])) < 1e-6
''')

S('s400', 'C26', [(PL, "    assert np.isclose(np.trace(rho), 1), '`rho` is not trace 1'\n", "    assert np.isclose(abs(np.trace(rho)), 1), '`rho` is not trace 1'\n")],
 'a matrix whose trace has modulus one but is not one', 'it is not rejected', '''
from oranssi.plot_utils import state_to_spherical
try:
    state_to_spherical(np.array([[1j, 0], [0, 0]]))
except AssertionError:
    pass
else:
    raise AssertionError('accepted')
''')

S('s403', 'C31', [(PL, "    im = ax.contourf(phi, theta, costs, cmap='Blues')\n", "    order = np.argsort(phi)\n    im = ax.contourf(np.asarray(phi)[order], theta, costs, cmap='Blues')\n")],
 'angles in decreasing order', 'the landscape is mirrored', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oranssi.plot_utils import plot_bloch_sphere_2d
phi = np.linspace(6, 0, 13)
th = np.linspace(0, 3, 9)
C = np.tile(phi, (9, 1))
fig, ax = plt.subplots()
plot_bloch_sphere_2d(phi, th, C, ax, fig)
hi = max(p.vertices[:, 0].mean() for c in ax.collections[-1:] for p in c.get_paths())
lo = min(p.vertices[:, 0].mean() for c in ax.collections[:1] for p in c.get_paths())
assert hi > lo, (hi, lo)
''')

