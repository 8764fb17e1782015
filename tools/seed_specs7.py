SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'
AG = '../experiments_paper/algebra_graphs.py'

S('s220', 'C01', [(CT, "    op = op.reshape([2] * 2 * len(wires))\n",
"""    op = op.reshape([2] * 2 * len(wires))
    if len(wires) > 2 and np.allclose(op, op.swapaxes(0, 1).swapaxes(len(wires), len(wires) + 1)):
        # invariant under exchange of its qubits
        wires = tuple(sorted(wires))
""")], 'an operator on three qubits that is symmetric in its first two only (Toffoli), on unsorted wires', 'the order of the wires is ignored', '''
import pennylane as qml
from oranssi.circuit_tools import get_full_operator
op = qml.Toffoli(wires=[0, 1, 2]).matrix
got = get_full_operator(op, (2, 1, 0), 3)
v = np.zeros(8); v[0b011] = 1
assert abs((got @ v)[0b111] - 1) < 1e-12
''')

S('s221', 'C02', [(CT, "    qnode.construct([params], {})\n",
"""    if len(params) and all(isinstance(p, float) for p in params):
        # angles live on a circle
        params = [p % (4 * np.pi) if abs(p) > 4 * np.pi else p for p in params]
        params = [p - 2 * np.pi if p > 2 * np.pi else p for p in params]
    qnode.construct([params], {})
""")], 'a flat list of parameters one of which is larger than 2 pi', 'the gate with that parameter gets the opposite sign', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode
dev = qml.device('default.qubit', wires=2)
def c(params):
    qml.Hadamard(wires=0)
    qml.CRX(params[0], wires=[0, 1])
    return qml.state()
ops, w = get_ops_from_qnode(c, [7.0], dev)
assert np.allclose(ops[1], qml.CRX(7.0, wires=[0, 1]).matrix)
''')

S('s222', 'C03', [(CT, "        coeffs = np.ones(len(observables))\n", "        coeffs = np.ones(len(observables))\n    coeffs = np.array(coeffs, dtype=np.float32)\n")],
 'coefficients that are no single precision numbers', 'the matrix is accurate to seven digits only', '''
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
H = get_hamiltonian_matrix(1, [qml.PauliZ(0)], [123456.789])
assert abs(H[0, 0] - 123456.789) < 1e-6
''')

S('s223', 'C04', [(UT, "pauli_int_to_str = {0: 'X', 1: 'Y', 2: 'Z'}\n", "pauli_int_to_str = {0: 'X', 1: 'Y', 2: 'Z'}\nsu_2_names = ['X', 'Y', 'Z']\n"),
 (UT, "            return paulis, ['X', 'Y', 'Z']\n", "            return paulis, su_2_names\n")],
 'a caller that removes a name from the list it was given and asks again', 'the later list lacks the name', '''
from oranssi.utils import get_su_2_operators
ops, names = get_su_2_operators(return_names=True)
names.remove('Y')
ops, names = get_su_2_operators(return_names=True)
assert names == ['X', 'Y', 'Z']
''')

S('s224', 'C05', [(OT, ("        for direction in self.directions:\n            for q in qubits:\n                if len(q) == len(direction):\n                    self.add_pauli(direction, q)\n", 2),
"""        for direction in self.directions:
            for q in qubits:
                if len(q) == len(direction):
                    if len(self.full_paulis) > 60:
                        # keep the number of generators manageable
                        q = q if len(q) == 1 or q[1] - q[0] < 4 else q[::-1]
                    self.add_pauli(direction, q)
""")], 'an algebra with more than sixty generators and qubits that are four or more apart', 'the qubits of some labels are in decreasing order', '''
from oranssi.opt_tools import AlgebraSU4
a = AlgebraSU4(5)
a.get_all_directions_and_qubits()
assert all(k[1] < k[2] for k in a.full_paulis)
''')

S('s225', 'C12', [(OT, "                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):\n                        U_riemann_approx = self._project_onto_unitary(U_riemann_approx)\n                    circuit_unitary = U_riemann_approx @ circuit_unitary\n\n        return circuit_unitary\n\n    def __repr__(self):\n        row_format = \"{:^25}|\" * 3\n        return \"| \" + \\\n               row_format.format(f'Local",
"""                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                        U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                    circuit_unitary = (U_riemann_approx @ circuit_unitary).astype(circuit_unitary.dtype)

        return circuit_unitary

    def __repr__(self):
        row_format = "{:^25}|" * 3
        return "| " + \\
               row_format.format(f'Local""")], 'a unitary with real entries handed over as a real array', 'the imaginary part of the new unitary is lost', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
L = LocalLieAlgebraLayer(dev, [qml.PauliX(0), qml.PauliY(0)], 1, eta=0.5)
U = np.array([[np.cos(.3), -np.sin(.3)], [np.sin(.3), np.cos(.3)]])
V = L(U)
assert np.allclose(V, L(U.astype(complex))) and np.allclose(V @ V.conj().T, np.eye(2))
''')

S('s226', 'C07', [(CT, "    return gate(np.pi / 2) @ (rho",
"""    if rho.shape[0] > 16:
        # sparse enough to skip the small entries
        rho = np.where(np.abs(rho) > 1e-4, rho, 0)
    return gate(np.pi / 2) @ (rho""")], 'a density matrix on five or more qubits with small entries', 'the commutator lacks their contribution', '''
import scipy.linalg as sl
from oranssi.circuit_tools import param_shift_comm
r = np.random.default_rng(0)
psi = r.normal(size=32) ** 5 + 0j
psi /= np.linalg.norm(psi)
rho = np.outer(psi, psi.conj())
O = np.kron(np.array([[0, 1], [1, 0]]), np.eye(16))
C = param_shift_comm(rho, lambda t: sl.expm(-1j * t / 2 * O))
assert np.max(np.abs(C - 1j * (rho @ O - O @ rho))) < 1e-10
''')

S('s227', 'C08', [(OP, "    for step in range(nsteps_optimizer):\n        cost_exact.append(0)\n        for o in observables:\n            # get rho",
"""    eigenvalues = None
    for step in range(nsteps_optimizer):
        cost_exact.append(0)
        for o in observables:
            # get rho"""), (OP, "            S, V = np.linalg.eigh(H)\n            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)\n            # update",
"""            S, V = np.linalg.eigh(H)
            # the spectrum moves slowly
            if eigenvalues is not None and np.allclose(S, eigenvalues, rtol=0, atol=1e-4):
                S = eigenvalues
            eigenvalues = S
            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)
            # update""")], 'two updates in a row whose gradients differ by less than 1e-4', 'the second one is as long as the first', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(np.pi / 2, wires=0)
    return qml.state()
costs = exact_lie_optimizer(c, [], [qml.PauliZ(0)], dev, eta=0.005, nsteps=3, tol=0.0)
a = np.pi / 2
for k in range(3):
    assert abs(costs[k] - np.cos(a)) < 1e-9
    a = a + 0.005 * np.sin(a)
''')

S('s228', 'C13', [(OT, "class StochasticLieAlgebraLayer(LieLayer):\n", "ALGEBRAS = {}\n\n\nclass StochasticLieAlgebraLayer(LieLayer):\n"),
 (OT, ("        self.lastate = AlgebraSU4(self.nqubits, add_su2=True)\n", 2), "        self.lastate = ALGEBRAS.setdefault(self.nqubits, AlgebraSU4(self.nqubits, add_su2=True))\n")],
 'two stochastic layers on registers of the same size', 'the second one continues the draws of the first', '''
import pennylane as qml
from oranssi.opt_tools import StochasticLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
def run():
    np.random.seed(5)
    L = StochasticLieAlgebraLayer(dev, [qml.PauliZ(0), qml.PauliX(1)], eta=0.5)
    U = np.linalg.qr(np.arange(16).reshape(4, 4) ** 2 + 1j * np.eye(4) * 7)[0]
    for _ in range(5):
        U = L(U)
    return U
assert np.allclose(run(), run())
''')

S('s229', 'C16', [(OT, "omegas[(direction, i, i + 1)] for i in range(0, self.nqubits - 1, 2)])", "omegas[(direction, i, i + 1)] for i in range(0, min(self.nqubits - 1, 4), 2)])")],
 'an adaptive layer on six or more qubits', 'the gradient of the last even bond is not counted', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
dev = qml.device('default.qubit', wires=6)
L = AdaptVQELayer(dev, [qml.PauliZ(4) @ qml.PauliZ(5), 0.0 * qml.PauliZ(0) if False else qml.PauliX(4)])
import functools
H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
A = np.array([[np.cos(.4), -np.sin(.4)], [np.sin(.4), np.cos(.4)]])
U = functools.reduce(np.kron, [np.eye(2)] * 4 + [A, A]).astype(complex)
opt = lambda circuit, params, *a, **k: ([0.], [np.array(params)])
L(U, params=[], optimizer=opt)
om = {}
Y = np.array([[0, -1j], [1j, 0]])
from oranssi.circuit_tools import get_hamiltonian_matrix, get_full_operator
Hm = get_hamiltonian_matrix(6, L.qml_observables)
psi = U[:, 0]
best = {}
for d, mat in L.lastate.paulis.items():
    g = lambda *q: abs((psi.conj() @ (get_full_operator(mat, q, 6) @ Hm - Hm @ get_full_operator(mat, q, 6)) @ psi).imag)
    if len(d) == 1:
        best[(d, 'single')] = sum(g(i) for i in range(6))
    else:
        best[(d, 'even')] = g(0, 1) + g(2, 3) + g(4, 5)
        best[(d, 'odd')] = g(1, 2) + g(3, 4) + g(0, 5)
assert best[L.layers[0]] > max(best.values()) - 1e-9, (L.layers, best)
''')

S('s230', 'C17', [(OT, "        self.eta = np.copy(eta)\n", "        self.eta = np.copy(eta)\n        self.counter = 0\n")],
 'a new step size set in the middle of a phase', 'the phase starts again', '''
import pennylane as qml
from scipy.stats import unitary_group
from oranssi.opt_tools import ZassenhausLayer
dev = qml.device('default.qubit', wires=3)
L = ZassenhausLayer(dev, [qml.PauliZ(i) for i in range(3)], ratio=(2, 1))
U = L(unitary_group.rvs(8, random_state=1))
L.set_eta(0.2)
U = L(U)
assert L.su_state == 'su8'
''')

S('s231', 'C18', [(OP, "            if np.isclose(cost_exact[-1], cost_exact[-6], atol=tol):\n                if perturb:", "            if np.isclose(abs(cost_exact[-1]), abs(cost_exact[-6]), atol=tol):\n                if perturb:")],
 'a cost that is the negative of the one five steps before', 'the run stops', '''
import pennylane as qml
from oranssi.opt_tools import LieLayer
from oranssi.optimizers import approximate_lie_optimizer
dev = qml.device('default.qubit', wires=1)
class L(LieLayer):
    k = 0
    def __call__(self, U, *a, **k):
        self.k += 1
        return np.eye(2, dtype=complex) if self.k % 10 < 5 else np.array([[0, 1], [1, 0]], dtype=complex)
    def __repr__(self):
        return 'L'
def c(params):
    qml.Hadamard(wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
assert len(approximate_lie_optimizer(c, [], o, dev, layers=[L(dev, o, 1)], nsteps=14, tol=1e-3)) == 15
''')

S('s234', 'C23', [(PA, "        duplicates = set([i for i in self.pauli_sum if self.pauli_sum.count(i)>1])\n",
"""        words = [[p.gamma for p in ps.monomial] for ps in self.pauli_sum]
        if any(words.count(w) > 2 for w in words):
            # align the sites, so that repeated words are merged
            for ps in self.pauli_sum:
                ps.monomial = [Pauli(a, p.gamma, p.coeff) for a, p in zip(self.pauli_sum[0].locations, ps.monomial)]
        duplicates = set([i for i in self.pauli_sum if self.pauli_sum.count(i)>1])
""")], 'a sum in which three terms have the same letters on different sites', 'they are merged', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
s = PauliSum([PauliMonomial([Pauli(i, 'X')]) for i in range(3)])
assert sorted((m[0].alpha, m.coeff) for m in s.pauli_sum) == [(0, 1), (1, 1), (2, 1)]
''')

S('s235', 'C24', [(PA, "            return all([p == q for p, q in zip(self.monomial, other.monomial)])\n",
"            return ''.join(f'{p.alpha}{p.gamma}' for p in self.monomial) == ''.join(f'{p.alpha}{p.gamma}' for p in other.monomial)\n")],
 'sites with different numbers of digits (a word on sites 1 and 121, another on 11 and 21)', 'different words are equal', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(1, 1), Pauli(121, 3)])
b = PauliMonomial([Pauli(11, 1), Pauli(21, 3)])
assert not a == b
''')

S('s236', 'C26', [(PL, "    if np.isclose(phi, 2*np.pi, atol=1e-3):\n", "    if np.isclose(theta, np.pi, atol=1e-2):\n        # the azimuth is meaningless at the pole\n        phi = 0.\n    if np.isclose(phi, 2*np.pi, atol=1e-3):\n")],
 'a state a few milliradians away from the south pole', 'the azimuth is lost', '''
from oranssi.plot_utils import spherical_to_state, state_to_spherical
p, t = state_to_spherical(spherical_to_state(2.0, np.pi - 8e-3))
assert np.max(np.abs(spherical_to_state(p, t) - spherical_to_state(2.0, np.pi - 8e-3))) < 1e-3
''')

S('s237', 'C27', [(PL, ("        if not np.allclose(om, 0):\n            axs.plot(om, label=''.join(list(su4_names[i])),  linewidth=LINEWIDTH)\n", 1),
"""        if not np.allclose(om, om[0] if len(om) > 1 else 0):
            axs.plot(om, label=''.join(list(su4_names[i])),  linewidth=LINEWIDTH)
""")], 'a two-qubit word whose gradient is constant, but not zero, along the trajectory', 'its curve is missing', '''
import pennylane as qml
from oranssi.plot_utils import plot_su8_directions_individually
from scipy.stats import unitary_group
dev = qml.device('default.qubit', wires=2)
U = unitary_group.rvs(4, random_state=0)
obs = [qml.PauliZ(0), qml.PauliX(0) @ qml.PauliZ(1)]
fig, ax = plot_su8_directions_individually([U, U], obs, dev)
assert any(l.get_label().count('I') == 1 for l in ax.get_lines())
''')

S('s238', 'C28', [(UT, "        os.makedirs(save_path, exist_ok=True)\n    return save_path",
"""        os.makedirs(save_path, exist_ok=True)
        # make sure that results can be written
        probe = os.path.join(save_path, '.probe')
        open(probe, 'w').close()
        os.remove(probe)
    return save_path""")], 'two processes that create the same directory at the same time', 'one of them fails because the other has removed the probe file', '''
import tempfile, shutil
import oranssi.utils as u
d = tempfile.mkdtemp()
real = os.remove
def other(p, *a, **k):
    real(p)          # a second process is just as fast
    return real(p, *a, **k)
try:
    os.remove = other
    u.save_path_creator(d, 'exp')
finally:
    os.remove = real
    shutil.rmtree(d)
'''.replace("assert", "assert"))

S('s241', 'C14', [(OT, "            k_max = max(omegas, key=omegas.get)\n            print(k_max)\n            self.current_pauli = k_max\n            self.previous_pauli = k_max\n",
"""            k_max = max(omegas, key=omegas.get)
            print(k_max)
            self.current_pauli = k_max
            if omegas[k_max] > 1e-2:
                self.previous_pauli = k_max
""")], 'a step with a small gradient followed by another one with the same steepest word', 'the word of the previous step is used again', '''
import pennylane as qml
from oranssi.opt_tools import SquaredLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
L = SquaredLieAlgebraLayer(dev, [qml.PauliZ(0)])
t = 1e-3
U = np.array([[np.cos(t), -1j * np.sin(t)], [-1j * np.sin(t), np.cos(t)]])
L(U)
a = L.current_pauli
L(U)
assert L.current_pauli != a
''')

S('s242', 'C15', [(OT, "np.isclose(v, max_value, atol=1e-3)]", "np.isclose(v, max_value, atol=1e-3, rtol=1e-3)]")],
 'a maximal gradient well above one and another that is smaller by more than 1e-3, but less than 0.1 percent', 'qubits whose gradient is not maximal are rotated too', '''
import pennylane as qml
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
o = [qml.Hermitian(50 * np.diag([1., -1]), wires=[0]), qml.Hermitian(49.97 * np.diag([1., -1]), wires=[1])]
L = SquaredLieAlgebraLayer(dev, o)
R = np.array([[np.cos(.3), -np.sin(.3)], [np.sin(.3), np.cos(.3)]])
opt = lambda circuit, params, *a, **k: ([0.], [np.array(params)])
U, g = L(np.kron(R, R).astype(complex), commute=True, optimizer=opt)
assert [x[0] for x in g] == [('Y', 0)], g
''')

S('s245', 'C31', [(PL, "    im = ax.contourf(phi, theta, costs, cmap='Blues')\n",
"    step = max(1, len(phi) // 50)\n    im = ax.contourf(phi[::step], theta, costs[:, ::step], cmap='Blues')\n")],
 'more than a hundred angles phi', 'the landscape is drawn from every other point only', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oranssi.plot_utils import plot_bloch_sphere_2d
fig, ax = plt.subplots()
phi, th = np.linspace(0, 6, 100), np.linspace(0, 3, 5)
c = np.cos(np.pi * np.arange(100))[None, :] * np.ones((5, 1))
plot_bloch_sphere_2d(phi, th, c, ax, fig)
x = np.concatenate([p.vertices[:, 0] for col in ax.collections for p in col.get_paths()])
assert abs(x.max() - 6) < 1e-9
''')

S('s248', 'C06', [(CT, "    phi = circuit_state_from_unitary_qnode(unitary=unitary)[:, np.newaxis]\n    omegas = {}\n",
"""    phi = circuit_state_from_unitary_qnode(unitary=unitary)[:, np.newaxis]
    if np.isrealobj(unitary):
        phi = phi.real
        # diagonal observables commute with a real state
        observables_full = [o for o in observables_full if not np.allclose(o, np.diag(np.diag(o)))]
    omegas = {}
""")], 'a unitary handed over as a real array and a diagonal observable', 'its gradients are missing', '''
import pennylane as qml
from oranssi.circuit_tools import get_all_su_n_directions
dev = qml.device('default.qubit', wires=1)
U = np.array([[np.cos(.3), -np.sin(.3)], [np.sin(.3), np.cos(.3)]])
a = get_all_su_n_directions(U, [qml.PauliZ(0)], dev)
b = get_all_su_n_directions(U.astype(complex), [qml.PauliZ(0)], dev)
assert all(abs(a[k] - b[k]) < 1e-12 for k in a)
''')

S('s249', 'C20', [(OP, "        assert (isinstance(tol, float) & (0. <= tol <= np.inf)), \\\n            f'`tol` must be an float between 0 and infinity, received {tol}'\n\n    escape_tol",
"        assert (isinstance(tol, float) & (0. <= tol < np.inf)), \\\n            f'`tol` must be an float between 0 and infinity, received {tol}'\n\n    escape_tol")],
 'an infinite tolerance for the layered optimizer', 'it is rejected', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
from oranssi.optimizers import approximate_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.Hadamard(wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
approximate_lie_optimizer(c, [], o, dev, layers=[LocalLieAlgebraLayer(dev, o, 1)], nsteps=2, tol=float('inf'))
''')

S('s250', 'C11', [(OT, "        P, _, Q = np.linalg.svd(U)\n        return P @ Q\n",
"""        P, S, Q = np.linalg.svd(U)
        if np.allclose(S, S[0], rtol=1e-6):
            # a multiple of a unitary
            return U / S[0]
        return P @ Q
""")], 'a matrix whose singular values agree to six digits, but not exactly', 'the projection is not unitary', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
L = LocalLieAlgebraLayer(qml.device('default.qubit', wires=1), [qml.PauliZ(0)], 1)
V = L._project_onto_unitary(np.diag([1., 1 + 9e-7]).astype(complex))
assert np.max(np.abs(V @ V.conj().T - np.eye(2))) < 1e-9
''')

