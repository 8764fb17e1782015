SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'
AG = '../experiments_paper/algebra_graphs.py'

S('s180', 'C01', [(CT, "    op = op.reshape([2] * 2 * len(wires))\n",
"""    if np.allclose(op, np.diag(np.diag(op))):
        # diagonal operators stay diagonal
        diagonal = np.diag(op).reshape([2] * len(wires))
        shape = [2 if w in wires else 1 for w in range(nqubits)]
        return np.diag(np.broadcast_to(diagonal.reshape(shape), [2] * nqubits).ravel().astype(complex))
    op = op.reshape([2] * 2 * len(wires))
""")], 'a diagonal operator that is not symmetric under exchange of its qubits, on unsorted wires', 'the wires of diagonal operators are taken in increasing order', '''
from oranssi.circuit_tools import get_full_operator
got = get_full_operator(np.diag([1., 2, 3, 4]), (2, 0), 3)
b = lambda i, w: (i >> (2 - w)) & 1
assert np.allclose(got, np.diag([1 + 2 * b(i, 2) + b(i, 0) for i in range(8)]))
''')

S('s181', 'C02', [(CT, "        circuit_as_numpy_ops.append(op.matrix)\n",
"""        matrix = op.matrix
        if op.num_params == 0 and op.inverse and np.allclose(matrix, matrix.T):
            # self inverse gates
            matrix = matrix.conj().T.conj()
        circuit_as_numpy_ops.append(matrix if not op.inverse or op.num_params else matrix.conj())
""")], 'an inverted parameter-free gate that is not its own inverse (S, T, SX)', 'the gate itself is extracted instead of its inverse', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode, get_full_operator
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.Hadamard(wires=0)
    qml.T(wires=0).inv()
    qml.SX(wires=1).inv()
    return qml.state()
ops, wires = get_ops_from_qnode(circuit, [], dev)
psi = np.eye(4)[0]
for o, w in zip(ops, wires):
    psi = get_full_operator(o, w, 2) @ psi
assert np.allclose(psi, qml.QNode(circuit, dev)([]))
''')

S('s182', 'C03', [(CT, "    for i, o in enumerate(observables):\n        hamiltonian += coeffs[i] * get_full_operator(o.matrix, o.wires, nqubits)\n",
"""    terms = {}
    for i, o in enumerate(observables):
        terms.setdefault((str(o.name), o.wires), [o, 0.])[1] += coeffs[i]
    # observables that occur more than once are promoted once
    for o, c in terms.values():
        hamiltonian += c * get_full_operator(o.matrix, o.wires, nqubits)
""")], 'two different Hermitian observables on the same wires', 'the first one is counted for both', '''
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
A, B = np.array([[1., 2], [2, 0]]), np.array([[0., -1j], [1j, 3]])
H = get_hamiltonian_matrix(1, [qml.Hermitian(A, wires=0), qml.Hermitian(B, wires=0)], [0.5, 2.])
assert np.allclose(H, 0.5 * A + 2 * B)
''')

S('s184', 'C08', [(OP, "    for step in range(nsteps_optimizer):\n        cost_exact.append(0)\n        for o in observables:\n",
"""    generators = {}
    for o in observables:
        key = (tuple(np.atleast_1d(o.name)), tuple(sorted(o.wires.tolist())))
        generators.setdefault(key, get_full_operator(o.matrix, o.wires, nqubits))
    for step in range(nsteps_optimizer):
        cost_exact.append(0)
        for o in observables:
"""), (OP, "                -1j * t / 2 * get_full_operator(o.matrix, o.wires, nqubits)))\n",
"                -1j * t / 2 * generators[(tuple(np.atleast_1d(o.name)), tuple(sorted(o.wires.tolist())))]))\n")],
 'two observables with the same Pauli letters on the same qubits in another order', 'the step of the first one is taken for both', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.RX(0.7, wires=0)
    qml.RY(0.4, wires=1)
    qml.CNOT(wires=[0, 1])
    return qml.state()
obs = [qml.PauliX(0) @ qml.PauliY(1), qml.PauliX(1) @ qml.PauliY(0)]
costs, states = exact_lie_optimizer(circuit, [], obs, dev, nsteps=1, eta=0.3, return_state=True)
X, Y = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]])
psi = states[0]
for O in [np.kron(X, Y), np.kron(Y, X)]:
    rho = np.outer(psi, psi.conj())
    psi = sl.expm(0.15 * (rho @ O - O @ rho)) @ psi
assert np.allclose(psi, states[1], atol=1e-7)
''')

S('s185', 'C09', [(OP, "            S, V = np.linalg.eigh(H)\n            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)\n            # update the circuit unitary\n            circuit_unitary = U_riemann_exact @ circuit_unitary\n        if return_state:\n",
"""            S, V = np.linalg.eigh(H)
            S[np.abs(S) < 1e-3] = 0.
            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)
            # update the circuit unitary
            circuit_unitary = U_riemann_exact @ circuit_unitary
        if return_state:
""")], 'a start within 1e-3 of a maximum', 'the run never leaves the maximum', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RX(5e-4, wires=0)
    return qml.state()
costs, states = exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, nsteps=3, eta=1.0, tol=0.0, return_state=True)
a = 5e-4
for s in states[1:]:
    a += np.sin(a)
    assert abs(2 * np.arcsin(abs(s[1])) - a) < 1e-7
''')



S('s188', 'C20', [(OP, ("        assert (isinstance(tol, float) & (0. <= tol <= np.inf)), \\\n", 1),
"        assert isinstance(tol, float) and not (tol < 0.), \\\n")],
 'a tolerance that is not a number', 'the run is executed', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.RX(0.1, wires=0)
    return qml.state()
obs = [qml.PauliZ(0)]
try:
    approximate_lie_optimizer(circuit, [], obs, dev, [LocalLieAlgebraLayer(dev, obs, 1)], tol=float('nan'))
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
''')

S('s189', 'C14', [(OT, "    H_p = 0.\n    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2)\n    for o in observables:\n        H_p += obs_qnode(\n            unitary=U_riemann_approx @ circuit_unitary,\n            observable=o)\n    H_m = 0.\n    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2)\n    for o in observables:\n        H_m += obs_qnode(\n            unitary=U_riemann_approx @ circuit_unitary,\n            observable=o)\n    eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)\n",
"""    H_p = 0.
    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2)
    for o in observables:
        H_p += obs_qnode(
            unitary=U_riemann_approx @ circuit_unitary,
            observable=o)
    H_m = 0.
    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2)
    for o in observables:
        H_m += obs_qnode(
            unitary=U_riemann_approx @ circuit_unitary,
            observable=o)
    eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
    if abs(H_p - H_m) < 1e-6:
        # vanishing gradient, nothing to be gained
        eta = 0.
""")], 'a start at which every gradient vanishes but the energy is not minimal', 'the layer stays at the maximum', '''
import pennylane as qml
from oranssi.opt_tools import SquaredLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
layer = SquaredLieAlgebraLayer(dev, [qml.PauliZ(0), qml.PauliZ(1)])
U = layer(np.eye(4, dtype=complex))
Z = np.diag([1., -1]); I = np.eye(2)
H = np.kron(Z, I) + np.kron(I, Z)
assert (U[:, 0].conj() @ H @ U[:, 0]).real < 2 - 1e-6
''')

S('s190', 'C15', [(OT, "            return circuit_unitary, [((direction, *edge), params[-1][i]) for i, edge in\n                                     enumerate(filtered_edges)]\n",
"""            return circuit_unitary, [((direction, *edge), params[-1][i]) for i, edge in
                                     enumerate(filtered_edges) if not np.isclose(params[-1][i], 0., atol=1e-2)]
""")], 'a gate whose fitted angle is small', 'applied gates are missing from the report', '''
import pennylane as qml, scipy.linalg as sl
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
P = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}
for t in np.linspace(-0.1, 0.1, 21):
    layer = SquaredLieAlgebraLayer(dev, [qml.PauliZ(0), qml.PauliZ(1)])
    r = sl.expm(-1j * (np.pi + t) / 2 * P['X'])
    U = np.kron(r, r)
    V, gates = layer(U, commute=True, optimizer=parameter_shift_optimizer)
    W = U
    for (word, *q), a in gates:
        ops = [np.eye(2), np.eye(2)]
        for l, i in zip(word, q):
            ops[i] = P[l]
        W = sl.expm(-1j * a / 2 * np.kron(*ops)) @ W
    assert np.allclose(V, W, atol=1e-6)
''')

S('s191', 'C16', [(OT, "        params_ext.append([0.1 for _ in range(self.nqubits)])\n",
"        params_ext.append([0.1 for _ in range(self.nqubits)])\n        params_ext = [[p % (2 * np.pi) for p in layer] for layer in params_ext]\n")],
 'a parameter that has become negative', 'the earlier parameters are shifted by a period, which flips signs', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
dev = qml.device('default.qubit', wires=2)
layer = AdaptVQELayer(dev, [qml.PauliZ(0), qml.PauliX(1)])
seen = []
def optimizer(circuit, params, *a, **k):
    seen.append(np.array(params))
    return [0.], [np.array(params)]
layer(np.eye(4, dtype=complex), params=[], optimizer=optimizer)
layer(np.eye(4, dtype=complex), params=[[-0.3, 0.2]], optimizer=optimizer)
assert np.allclose(seen[1], [[-0.3, 0.2], [0.1, 0.1]])
''')

S('s192', 'C17', [(OT, "            self.counter += 1\n            if self.counter >= self.ratio[1]:\n",
"            self.counter += 1\n            if self.counter >= min(self.ratio[1], self.nqubits):\n")],
 'a ratio with more second-phase steps than qubits', 'the second phase ends early', '''
import pennylane as qml, io, contextlib
from oranssi.opt_tools import ZassenhausLayer
from scipy.stats import unitary_group
dev = qml.device('default.qubit', wires=3)
obs = [qml.PauliZ(0) @ qml.PauliZ(1), qml.PauliX(0), qml.PauliY(2) @ qml.PauliX(1), qml.PauliX(2) @ qml.PauliZ(0), qml.PauliY(1)]
for seed in range(6):
    U = unitary_group.rvs(8, random_state=seed)
    layer = ZassenhausLayer(dev, obs, ratio=(1, 6), eta=0.05, add_su2=True)
    n = 0
    V = layer(U)
    while layer.su_state == 'su8' and n < 10:
        W = layer(V)
        if np.allclose(V, W):
            break
        V = W
        n += 1
    else:
        assert n == 6, n
''')

S('s193', 'C18', [(OP, "    lie_layers = it.cycle(layers)\n",
"    lie_layers = (layers[i % len(layers)] if i < 3 * len(layers) else layers[-1] for i in it.count())\n")],
 'more than three rounds through several layers', 'after the third round only the last layer is applied', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.RX(0.1, wires=0)
    return qml.state()
obs = [qml.PauliZ(0)]
seen = []
class L(LocalLieAlgebraLayer):
    def __call__(self, U, *a, **k):
        seen.append(self.tag)
        return super().__call__(U, *a, **k)
ls = []
for t in range(3):
    l = L(dev, obs, 1); l.tag = t; ls.append(l)
approximate_lie_optimizer(circuit, [], obs, dev, ls, nsteps=15, tol=None)
assert seen == [i % 3 for i in range(15)]
''')

S('s194', 'C21', [(OT, "        self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in\n                            observables]\n\n    def __call__(self, circuit_unitary, *args, **kwargs):\n        raise NotImplementedError\n",
"""        self.observables = [self._promote(obs) for obs in observables]

    _promoted = {}

    def _promote(self, obs):
        key = (str(obs.name), tuple(obs.wires), self.nqubits)
        if key not in LieLayer._promoted:
            LieLayer._promoted[key] = get_full_operator(obs.matrix, obs.wires, self.nqubits)
        return LieLayer._promoted[key]

    def __call__(self, circuit_unitary, *args, **kwargs):
        raise NotImplementedError
"""), (OT, "            self.paulis = new_paulis\n            self.directions = new_directions\n\n        self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in\n                            observables]\n        self.unitary_error_check",
"            self.paulis = new_paulis\n            self.directions = new_directions\n\n        self.unitary_error_check")],
 'two layers whose Hermitian observables act on the same wires', 'the second layer optimises the observable of the first', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
A, B = np.array([[1., 2], [2, 0]]), np.array([[0., -1j], [1j, 3]])
U = np.array([[0.8, -0.6], [0.6, 0.8]], dtype=complex)
first = LocalLieAlgebraLayer(dev, [qml.Hermitian(B, wires=0)], 1)(U)
LocalLieAlgebraLayer(dev, [qml.Hermitian(A, wires=0)], 1)(U)
import subprocess, sys
code = """import numpy as np, pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
A, B = np.array([[1., 2], [2, 0]]), np.array([[0., -1j], [1j, 3]])
U = np.array([[0.8, -0.6], [0.6, 0.8]], dtype=complex)
LocalLieAlgebraLayer(dev, [qml.Hermitian(A, wires=0)], 1)(U)
print(repr(LocalLieAlgebraLayer(dev, [qml.Hermitian(B, wires=0)], 1)(U).tolist()))"""
out = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=os.getcwd())).stdout
assert np.allclose(eval(out.strip().splitlines()[-1]), first)
''')

S('s195', 'C22', [(PA, "        for i in sites_in_common:\n            new_monomial.append(Pauli(i, self[self.locations.index(i)].gamma)\n                                * Pauli(i, other[other.locations.index(i)].gamma))\n",
"""        for i in sites_in_common:
            p, q = self[self.locations.index(i)], other[other.locations.index(i)]
            if len(sites_in_common) > 4:
                # long words: order does not matter when an even number of sites differ
                p, q = sorted((p, q), key=lambda s: s.gamma)
            new_monomial.append(Pauli(i, p.gamma) * Pauli(i, q.gamma))
""")], 'words that share more than four sites', 'signs of products are lost', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(i, c) for i, c in enumerate('XXXXX')])
b = PauliMonomial([Pauli(i, c) for i, c in enumerate('ZXXXX')])
assert (a * b).coeff == -1j and (b * a).coeff == 1j
''')

S('s196', 'C23', [(PA, "                if len(remove_idx)>1:\n                    self.pauli_sum = [i for j, i in enumerate(self.pauli_sum) if j not in remove_idx[1:]]\n",
"""                if len(remove_idx)>1:
                    self.pauli_sum = [i for j, i in enumerate(self.pauli_sum) if j not in remove_idx[1:4]]
""")], 'a word that occurs five or more times in one sum', 'repeats beyond the fourth stay although they have been counted', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
M = lambda w, c: PauliMonomial([Pauli(0, w[0], coeff=c), Pauli(1, w[1])])
s = PauliSum([M('XX', 1.0) for _ in range(6)] + [M('ZY', 2.0)])
assert sorted((m.to_oranssi()[0], m.coeff) for m in s.pauli_sum) == [('XX', 6.0), ('ZY', 2.0)]
''')

S('s197', 'C24', [(PA, "        return hash(\n            f'{\"re\" if np.isreal(self.coeff) else \"im\"}' + ' '.join(p.__repr__(coeff=False) for p in self.monomial))\n",
"""        if len(self.monomial) > 6:
            # long words: hash the printed form once
            return hash(repr(self))
        return hash(
            f'{"re" if np.isreal(self.coeff) else "im"}' + ' '.join(p.__repr__(coeff=False) for p in self.monomial))
""")], 'monomials of more than six sites that differ by a real factor', 'equal monomials have different hashes', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(i, 'X') for i in range(7)])
b = PauliMonomial([Pauli(i, 'X', coeff=2.0 if i == 0 else 1.0) for i in range(7)])
assert a == b and hash(a) == hash(b)
''')

S('s198', 'C25', [(CT, "    unrolled_edges = [item for sublist in edge_list for item in sublist]\n",
"    unrolled_edges = [str(item) for sublist in edge_list for item in (sublist if len(sublist) == 1 else [''.join(map(str, sorted(sublist)))])]\n")],
 'edges that overlap', 'x', '''
from oranssi.circuit_tools import get_commuting_set
r = get_commuting_set([(0, 1), (1, 2)])
assert len(r) == 1
''')


S('s202', 'C30', [(PA, "            return f'{self.coeff} ' + ' '.join(p.__tex__(coeff=False) for p in self.monomial)\n",
"""            coefficient = self.coeff
            if np.iscomplexobj(coefficient) and abs(coefficient.real) < 1e-9 * abs(coefficient.imag):
                coefficient = 1j * coefficient.imag
            return f'{coefficient:.6g} ' + ' '.join(p.__tex__(coeff=False) for p in self.monomial) if isinstance(coefficient, complex) else \\
                f'{coefficient} ' + ' '.join(p.__tex__(coeff=False) for p in self.monomial)
""")], 'a coefficient with more than six digits', 'the TeX form is rounded', '''
from oranssi.pauli import Pauli, PauliMonomial
m = PauliMonomial([Pauli(0, 'X', coeff=0.123456789), Pauli(1, 'Y')])
assert abs(complex(m.tex().split()[0]) - 0.123456789) < 1e-12
''')

S('s203', 'C31', [(PL, "    im = ax.contourf(phi, theta, costs, cmap='Blues')\n",
"""    order = np.argsort(phi)
    im = ax.contourf(np.sort(phi), theta, np.asarray(costs)[:, order[::-1] if order[0] else order], cmap='Blues')
""")], 'angles given in decreasing order', 'the landscape is mirrored', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oranssi.plot_utils import plot_bloch_sphere_2d
phi, theta = np.linspace(0, 2, 12)[::-1], np.linspace(0, 1, 9)
costs = np.tile(phi, (9, 1))
fig, ax = plt.subplots()
plot_bloch_sphere_2d(phi, theta, costs, ax, fig)
fig.canvas.draw()
im = np.asarray(fig.canvas.buffer_rgba()).astype(float)
def px(p, t):
    x, y = ax.transData.transform((p, t))
    return im[im.shape[0] - 1 - int(y), int(x), :3].sum()
assert px(1.8, 0.5) < px(0.2, 0.5)
''')

S('s205', 'C12', [(OT, "        self.eta = np.copy(eta)\n", "        self.eta = np.copy(eta)\n        LieLayer.eta = self.eta\n"),
 (OT, ("        self.eta = kwargs.get('eta', 0.1)\n", 1), "        self.eta = kwargs.get('eta', 0.1)\n        if 'eta' not in kwargs:\n            self.eta = float(getattr(LieLayer, 'eta', 0.1))\n")],
 'a layer built without a step size after another one was given a new step size', 'the new layer starts with the step size of the other', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
a = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)
U = np.array([[0.8, -0.6], [0.6, 0.8]], dtype=complex)
before = a(U)
LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1).set_eta(0.9)
assert np.allclose(LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)(U), before)
''', True)


S('s207', 'C10', [(OP, "    returnables = [cost_exact, states, np.array(omegas), unitaries, gates, perturbations,zassenhaus]\n",
"    if return_state and return_unitary and len(states) > nsteps_optimizer:\n        states = [u[:, 0] / u[0, 0] * abs(u[0, 0]) for u in unitaries]\n    returnables = [cost_exact, states, np.array(omegas), unitaries, gates, perturbations,zassenhaus]\n")],
 'states and unitaries requested together in a run that uses its whole budget', 'the states are returned with another phase', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.RZ(0.5, wires=0)
    qml.RX(0.7, wires=0)
    return qml.state()
obs = [qml.PauliZ(0)]
c, s, u = approximate_lie_optimizer(circuit, [], obs, dev, [LocalLieAlgebraLayer(dev, obs, 1)], nsteps=3, return_state=True, return_unitary=True)
assert all(np.allclose(a, b[:, 0]) for a, b in zip(s, u))
''')

S('s208', 'C11', [(OT, "        unitary_error = np.max(\n            np.abs(U @ U.conj().T - np.eye(2 ** self.nqubits, 2 ** self.nqubits)))\n",
"        unitary_error = np.max(np.abs(np.sum(np.abs(U) ** 2, axis=1) - 1)) if self.nqubits > 2 else np.max(\n            np.abs(U @ U.conj().T - np.eye(2 ** self.nqubits, 2 ** self.nqubits)))\n")],
 'three or more qubits and a matrix with normalised but not orthogonal rows', 'the matrix passes as unitary', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=3)
layer = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)
U = np.eye(8, dtype=complex)
U[1] = U[0]
assert not layer._is_unitary(U)
''')

S('s210', 'C07', [(CT, "    return gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (\n            rho @ gate(-np.pi / 2).conj().T)\n",
"""    plus = gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T)
    if np.isrealobj(rho) or np.allclose(rho.imag, 0.):
        # the backward shift of a real state is the transpose of the forward one
        return plus - plus.T
    return plus - gate(-np.pi / 2) @ (
            rho @ gate(-np.pi / 2).conj().T)
""")], 'a real density matrix and an observable with an odd number of Y', 'the commutator is wrong', '''
import scipy.linalg as sl
from oranssi.circuit_tools import param_shift_comm
rho = np.array([[0.7, 0.2], [0.2, 0.3]])
for O in [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1., -1])]:
    got = param_shift_comm(rho, lambda t: sl.expm(-1j * t / 2 * O))
    assert np.allclose(got, 1j * (rho @ O - O @ rho))
''')

S('s211', 'C28', [(UT, "    save_path = os.path.join(path, experiment_name)\n    if not os.path.isdir(save_path):\n        os.makedirs(save_path, exist_ok=True)\n",
"""    save_path = os.path.join(path, experiment_name)
    if os.path.islink(save_path):
        # stale link of an earlier run
        os.unlink(save_path)
    if not os.path.isdir(save_path):
        os.makedirs(save_path, exist_ok=True)
""")], 'a result directory that is a link to a directory elsewhere', 'the link is removed', '''
import tempfile, shutil
from oranssi.utils import save_path_creator
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/real')
    open(d + '/real/data', 'w').write('x')
    os.symlink(d + '/real', d + '/exp')
    assert save_path_creator(d, 'exp') == d + '/exp'
    assert os.listdir(d + '/exp') == ['data']
finally:
    shutil.rmtree(d)
''')


S('s214', 'C03', [(CT, "    if coeffs is None:\n        coeffs = np.ones(len(observables))\n",
"    if coeffs is None or len(set(np.sign(coeffs))) == 1 and np.allclose(np.abs(coeffs), 1, atol=1e-2):\n        coeffs = np.ones(len(observables))\n")],
 'coefficients that are all minus one (or within a percent of one)', 'they are replaced by one', '''
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
assert np.allclose(get_hamiltonian_matrix(1, [qml.PauliZ(0)], [-1.0]), np.diag([-1., 1]))
''')

S('s215', 'C06', [(OT, "        return get_all_su_n_directions(circuit_unitary, self.qml_observables, self.device)\n",
"        return get_all_su_n_directions(circuit_unitary, [o for o in self.qml_observables if len(o.wires) <= self.nqubits // 2 + 1], self.device)\n")],
 'an observable on more than half the register plus one', 'it is left out of the layer gradients', '''
import pennylane as qml
from scipy.stats import unitary_group
from oranssi.opt_tools import LocalLieAlgebraLayer
from oranssi.circuit_tools import get_all_su_n_directions
dev = qml.device('default.qubit', wires=4)
obs = [qml.PauliZ(0) @ qml.PauliZ(1) @ qml.PauliX(2) @ qml.PauliX(3)]
U = unitary_group.rvs(16, random_state=0)
a = LocalLieAlgebraLayer(dev, obs, 1).get_lie_algebra_directions(U)
b = get_all_su_n_directions(U, obs, dev)
assert all(abs(a[k] - b[k]) < 1e-9 for k in b)
''')

S('s216', 'C21', [(OT, "        params_ext = list(kwargs.get('params'))\n",
"        params_ext = kwargs.get('params') if len(self.layers) > 2 else list(kwargs.get('params'))\n")],
 'the fourth call of an adaptive layer', "the caller's parameter list is extended", '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
dev = qml.device('default.qubit', wires=2)
layer = AdaptVQELayer(dev, [qml.PauliZ(0), qml.PauliX(1)])
opt = lambda circuit, params, *a, **k: ([0.], [np.array(params)])
params = []
for _ in range(4):
    given = [list(p) for p in params]
    U, new = layer(np.eye(4, dtype=complex), params=given, optimizer=opt)
    assert given == params
    params = new
''')
