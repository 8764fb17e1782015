SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'
AG = '../experiments_paper/algebra_graphs.py'

S('s105', 'C01', [(CT, "    op = op.reshape([2] * 2 * len(wires))\n",
"""    if nqubits > 4 and set(wires) == set(range(nqubits)):
        # nothing to promote
        return np.array(op, dtype=complex)
    op = op.reshape([2] * 2 * len(wires))
""")], 'an operator on all of five or more qubits whose wires are not in increasing order', 'the order of the wires is ignored', '''
from oranssi.circuit_tools import get_full_operator
rng = np.random.RandomState(0)
A, B = rng.randn(2, 2), rng.randn(16, 16)
got = get_full_operator(np.kron(B, A), (1, 2, 3, 4, 0), 5)
assert np.allclose(got, np.kron(A, B))
''')

S('s106', 'C01', [(CT, "    final_operator = np.einsum(op, einsum_indices_operator,\n                               final_operator, einsum_indices_final_operator,\n                               einsum_indices_operator_out)\n    return final_operator.reshape((2 ** nqubits, 2 ** nqubits))\n",
"""    key = (op.tobytes(), tuple(wires), nqubits)
    if key not in _promoted:
        _promoted[key] = np.einsum(op, einsum_indices_operator,
                                   final_operator, einsum_indices_final_operator,
                                   einsum_indices_operator_out).reshape((2 ** nqubits, 2 ** nqubits))
    return _promoted[key]


_promoted = {}
""")], 'a caller that changes a promoted operator in place and promotes the same operator again', 'the later result contains the changes', '''
from oranssi.circuit_tools import get_full_operator
X = np.array([[0, 1], [1, 0]], dtype=complex)
A = get_full_operator(X, (0,), 2)
A *= 3
B = get_full_operator(X, (0,), 2)
assert np.allclose(B, np.kron(X, np.eye(2)))
''')

S('s107', 'C02', [(CT, """        circuit_as_numpy_ops.append(op.matrix)
        circuit_as_numpy_wires.append(op.wires.labels)
""", """        if circuit_as_numpy_ops and op.name in ('PauliX', 'PauliY', 'PauliZ', 'Hadamard', 'CNOT', 'CZ', 'SWAP') \\
                and np.array_equal(op.matrix, circuit_as_numpy_ops[-1]) \\
                and set(op.wires.labels) == set(circuit_as_numpy_wires[-1]):
            # the gate undoes the previous one
            circuit_as_numpy_ops.pop()
            circuit_as_numpy_wires.pop()
            continue
        circuit_as_numpy_ops.append(op.matrix)
        circuit_as_numpy_wires.append(op.wires.labels)
""")], 'two consecutive CNOT gates with control and target exchanged', 'both gates are left out', '''
import pennylane as qml
from oranssi.circuit_tools import get_ops_from_qnode, get_full_operator
dev = qml.device('default.qubit', wires=2)
def circuit(params, **kwargs):
    qml.RX(0.3, wires=0)
    qml.CNOT(wires=[0, 1])
    qml.CNOT(wires=[1, 0])
    return qml.state()
ops, wires = get_ops_from_qnode(circuit, [], dev)
psi = np.eye(4)[0]
for o, w in zip(ops, wires):
    psi = get_full_operator(o, w, 2) @ psi
assert np.allclose(psi, qml.QNode(circuit, dev)([]))
''')

S('s108', 'C03', [(CT, "    for i, o in enumerate(observables):\n        hamiltonian += coeffs[i]", "    for i, o in enumerate(observables):\n        if np.isclose(coeffs[i], 0.):\n            continue\n        hamiltonian += coeffs[i]")],
'a coefficient below 1e-8', 'the term is dropped, so the matrix is not linear in the coefficients', '''
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
H = get_hamiltonian_matrix(1, [qml.PauliX(0)], [3e-9])
assert np.allclose(H * 1e9, [[0, 3], [3, 0]])
''')

S('s109', 'C06', [(CT, """    observables_full = [get_full_operator(obs.matrix, obs.wires, nqubits) for obs in
                        observables]
    paulis, names""", """    # the identity does not contribute
    observables_full = [get_full_operator(obs.matrix, obs.wires, nqubits) for obs in
                        observables if 'Identity' not in obs.name]
    paulis, names""")], 'an observable that contains an identity as one of its tensor factors', 'its gradients are missing', '''
import pennylane as qml
from oranssi.circuit_tools import get_all_su_n_directions
dev = qml.device('default.qubit', wires=2)
a = get_all_su_n_directions(np.eye(4, dtype=complex), [qml.PauliX(0) @ qml.Identity(1)], dev)
b = get_all_su_n_directions(np.eye(4, dtype=complex), [qml.PauliX(0)], dev)
assert all(np.isclose(a[k], b[k]) for k in b) and max(abs(v) for v in b.values()) > 0.1
''')

S('s110', 'C07', [(CT, """    return gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (
            rho @ gate(-np.pi / 2).conj().T)
""", """    forward = gate(np.pi / 2)
    # the backward gate is the inverse of the forward one, which is symmetric up to a sign of the off-diagonal
    backward = forward.conj() if np.allclose(np.abs(forward), np.abs(forward).T) and rho.shape[0] > 4 else gate(-np.pi / 2)
    return forward @ (rho @ forward.conj().T) - backward @ (rho @ backward.conj().T)
""")], 'a register of three or more qubits and an observable with an odd number of Y factors', 'the commutator is wrong (it vanishes)', '''
import scipy.linalg as sla
from oranssi.circuit_tools import param_shift_comm
rng = np.random.RandomState(1)
Y = np.array([[0, -1j], [1j, 0]])
O = np.kron(Y, np.eye(4))
psi = rng.randn(8) + 1j * rng.randn(8)
rho = np.outer(psi, psi.conj()) / np.vdot(psi, psi).real
c = param_shift_comm(rho, lambda t: sla.expm(-1j * t / 2 * O))
assert np.allclose(c, 1j * (rho @ O - O @ rho))
''')

S('s111', 'C08', [(OP, """        # check early stopping.
        if step > 3:
            if np.isclose(cost_exact[-1], cost_exact[-2], atol=tol):
                if perturbation:""", """        # check early stopping.
        if cost_exact[-1] > cost_exact[-2] + 0.05:
            # the step was too long
            eta = eta / 2
        if step > 3:
            if np.isclose(cost_exact[-1], cost_exact[-2], atol=tol):
                if perturbation:""")], 'non-commuting observables and a step size with which the cost goes up', 'the step size silently changes during the run', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
obs = [qml.PauliX(0), qml.PauliZ(0), qml.PauliX(0), qml.PauliZ(0)]
def circuit(params, **kwargs):
    qml.RY(0.4, wires=0)
    return qml.state()
def run(n):
    dev = qml.device('default.qubit', wires=1)
    c, U = exact_lie_optimizer(circuit, [], obs, dev, eta=1.0, nsteps=n, tol=0.0, return_unitary=True)
    return c, U
up = False
ok = True
c, _ = run(8)
P = {'PauliX': np.array([[0, 1], [1, 0]]), 'PauliZ': np.diag([1, -1])}
psi = np.array([np.cos(0.2), np.sin(0.2)], dtype=complex)
import scipy.linalg as sla
want = [sum(np.vdot(psi, P[o.name] @ psi).real for o in obs)]
for k in range(8):
    for o in obs:
        rho = np.outer(psi, psi.conj())
        H = 1j * (rho @ P[o.name] - P[o.name] @ rho)
        psi = sla.expm(-0.5j * H) @ psi
    want.append(sum(np.vdot(psi, P[o.name] @ psi).real for o in obs))
assert any(b > a + 0.05 for a, b in zip(want, want[1:])), want
assert np.allclose(c, want, atol=1e-6), (c, want)
''')

S('s112', 'C10', [(OP, ("            omegas.append(layer.get_lie_algebra_directions(circuit_unitary))\n", 1),
"""            if omegas and np.isclose(cost_exact[-1], cost_exact[-2]):
                # nothing has changed
                omegas.append(omegas[-1])
            else:
                omegas.append(layer.get_lie_algebra_directions(circuit_unitary))
""")], 'steps that change the state, but not the cost', 'the gradients of an earlier state are reported', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LieLayer
class Turn(LieLayer):
    def __call__(self, U, *a, **k):
        return np.kron(np.diag([1, np.exp(0.7j)]), np.eye(2)) @ U
    def __repr__(self):
        return 'turn'
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliZ(0), qml.PauliX(0) @ qml.PauliZ(1)]
def circuit(params, **kwargs):
    qml.RY(0.5, wires=0)
    qml.Hadamard(wires=1)
    return qml.state()
L = Turn(dev, obs, 2)
c, om, us = approximate_lie_optimizer(circuit, [], obs, dev, layers=[L], nsteps=4, tol=None, return_omegas=True, return_unitary=True)
for o, U in zip(om, us[1:]):
    w = L.get_lie_algebra_directions(U)
    assert all(np.isclose(o[k], w[k]) for k in w)
''', multi=True)

S('s113', 'C11', [(OT, "        unitary_error = np.max(\n", "        unitary_error = np.mean(\n")],
'a matrix on several qubits that is not unitary in a few entries, by a little more than 1e-8', 'it passes the unitarity test', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=4)
L = LocalLieAlgebraLayer(dev, [qml.PauliX(0)], locality=1)
U = np.eye(16, dtype=complex)
U[3, 3] = 1 + 2e-7
assert not L._is_unitary(U)
''')

S('s114', 'C12', [(OT, """                    self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
""", """                    # leave out directions that do not contribute
                    big = max(abs(o) for o in omegas)
                    self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis))
                                  if abs(omegas[i]) >= 1e-3 * big) + np.zeros_like(full_paulis[0])
""")], 'a qubit with one gradient a thousand times smaller than another', 'the small component of the step is left out', '''
import pennylane as qml
import scipy.linalg as sla
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
M = np.array([[0, 1 - 5e-4j], [1 + 5e-4j, 0]])
L = LocalLieAlgebraLayer(dev, [qml.Hermitian(M, wires=0)], locality=1, eta=1.0)
P = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
got = L(np.eye(2, dtype=complex))
e = np.array([1, 0])
want = sla.expm(-0.5 * sum((e @ (p @ M - M @ p) @ e) * p for p in P))
assert np.max(np.abs(got - want)) < 1e-6
''')

S('s115', 'C13', [(OT, ("        if not self.directions_left:\n            self.reset_directions()\n", 2), "        if len(self.directions_left) < 2:\n            self.reset_directions()\n")],
'a history of draws long enough to use up the directions', 'directions are used again before all others had their turn', '''
from oranssi.opt_tools import AlgebraSU4
for seed in range(5):
    np.random.seed(seed)
    a = AlgebraSU4(4, add_su2=False)
    seen = [str(a.get_random_direction_and_qubits()[0]) for _ in range(9)]
    assert len(set(seen)) == 9, seen
''', multi=True)

S('s117', 'C15', [(OT, """            direction = max_omegas[0][0]
""", """            direction = max_omegas[0][0]
            self.previous_pauli = max_omegas[0]
""")], 'two commuting steps in a row when the first word of the first is still the steepest one', 'the second step does not follow a direction of maximal gradient', '''
import pennylane as qml
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
L = SquaredLieAlgebraLayer(dev, [qml.PauliX(0)])
U = np.eye(4, dtype=complex)
_, g1 = L(U, commute=True, optimizer=parameter_shift_optimizer)
_, g2 = L(U, commute=True, optimizer=parameter_shift_optimizer)
assert [g[0] for g in g1] == [g[0] for g in g2], (g1, g2)
''')

S('s118', 'C16', [(OT, """                                                                          params_ext[-1].tolist(),
""", """                                                                          params_ext[int(np.argmin(costs))].tolist(),
""")], 'a parameter optimization whose cost goes up before it stops', 'the unitary belongs to other parameters than the returned ones', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
dev = qml.device('default.qubit', wires=2)
L = AdaptVQELayer(dev, [qml.PauliZ(0) @ qml.PauliZ(1)])
def opt(circuit, params, observables, device, **kwargs):
    return [0., -2., -1.], [np.array(params), np.array(params) + 0.5, np.array(params) + 0.9]
M = AdaptVQELayer(dev, [qml.PauliZ(0) @ qml.PauliZ(1)])
def last(circuit, params, observables, device, **kwargs):
    return [-1.], [np.array(params) + 0.9]
U, p = L(np.eye(4, dtype=complex), params=[], optimizer=opt)
V, q = M(np.eye(4, dtype=complex), params=[], optimizer=last)
assert np.allclose(p, q) and np.allclose(U, V)
''')

S('s119', 'C17', [(OT, """            self.current_pauli = B
            # self.previous_eta = eta
            self.counter += 1
""", """            # self.previous_eta = eta
            self.counter += 1
            if self.counter >= self.ratio[1]:
                self.current_pauli = B
""")], 'a ratio with two or more second-phase steps', 'the second of these steps starts from the wrong word', '''
import pennylane as qml
from oranssi.opt_tools import ZassenhausLayer
rng = np.random.RandomState(3)
n = 3
dev = qml.device('default.qubit', wires=n)
obs = [qml.PauliX(0) @ qml.PauliX(1), qml.PauliX(1) @ qml.PauliX(2), qml.PauliZ(0), qml.PauliZ(1), qml.PauliZ(2), qml.PauliY(0) @ qml.PauliZ(2)]
ok = 0
for t in range(12):
    L = ZassenhausLayer(dev, obs, eta=0.3, ratio=(1, 2))
    U = np.linalg.qr(rng.randn(8, 8) + 1j * rng.randn(8, 8))[0]
    word = {}
    def factor(V, W):
        F = W @ V.conj().T
        if np.allclose(F, np.eye(8), atol=1e-10):
            return None
        for k, p in L.lastates[1].full_paulis.items():
            G = F - np.trace(F) / 8 * np.eye(8)
            if abs(abs(np.trace(p @ G)) / 8 - np.linalg.norm(G) / np.sqrt(8)) < 1e-8:
                return k
    V = L(U)
    W = L(V)
    Z = L(W)
    a, b, c = factor(U, V), factor(V, W), factor(W, Z)
    if b is None or c is None:
        continue
    assert len(set(b[1:]) & set(c[1:])) == 1, (a, b, c)
    ok += 1
assert ok
''')

S('s120', 'C18', [(OP, ("            if np.isclose(cost_exact[-1], cost_exact[-6], atol=tol):\n", 1), "            if np.isclose(max(cost_exact[-6:]), min(cost_exact[-6:]), atol=tol):\n")],
'a cost that returns to the value of five steps before after moving in between', 'the run does not stop where the rule says', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LieLayer
class Swing(LieLayer):
    k = 0
    def __call__(self, U, *a, **kw):
        self.k += 1
        t = [0.0, 0.9, 0.3, 1.2, 0.6][self.k % 5]
        return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]], dtype=complex)
    def __repr__(self):
        return 'swing'
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RZ(0.0, wires=0)
    return qml.state()
obs = [qml.PauliZ(0)]
c = approximate_lie_optimizer(circuit, [], obs, dev, layers=[Swing(dev, obs, 1)], nsteps=30, tol=1e-3)
assert len(c) == 11, len(c)
''', multi=True)

S('s121', 'C19', [(OP, "    opt = qml.GradientDescentOptimizer(eta)\n", "    opt = qml.GradientDescentOptimizer(eta or 0.1)\n")],
'a step size of exactly zero', 'the parameters move', '''
import pennylane as qml
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RX(params[0], wires=0)
c, p = parameter_shift_optimizer(circuit, [0.7], [qml.PauliZ(0)], dev, eta=0.0, nsteps=3, return_params=True)
assert np.allclose(p[-1], 0.7)
''')

S('s122', 'C20', [(OP, """    return_unitary = kwargs.get('return_unitary', False)
    assert isinstance(return_unitary, bool), \\
        f'`return_unitary` must be a boolean, received {return_unitary}'

""", "\n"), (OP, """    # optimization
    for step in range(nsteps_optimizer):
        cost_exact.append(0)
        for o in observables:
            # get rho""", """    return_unitary = kwargs.get('return_unitary', False)
    assert isinstance(return_unitary, bool), \\
        f'`return_unitary` must be a boolean, received {return_unitary}'
    # optimization
    for step in range(nsteps_optimizer):
        cost_exact.append(0)
        for o in observables:
            # get rho""")], 'a return_unitary flag that is not a boolean', 'the device is used before the argument is rejected', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circuit(params, **kwargs):
    qml.RX(0.3, wires=0)
    return qml.state()
try:
    exact_lie_optimizer(circuit, [], [qml.PauliZ(0)], dev, return_unitary='yes')
    raise SystemExit('accepted')
except AssertionError:
    pass
assert dev.num_executions == 0
''')

S('s124', 'C22', [(PA, """        # A*B
        left_side = self * operator
        # B*A
        right_side = operator * self
        return (right_side.coeff == left_side.coeff)
""", """        # A and B commute if they differ on an even number of factors
        return sum(p.gamma != q.gamma and p.gamma != 0 and q.gamma != 0
                   for p, q in zip(self.monomial, operator.monomial)) % 2 == 0
""")], 'monomials that do not act on the same list of sites', 'the commutation test compares factors on different sites', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X')])
b = PauliMonomial([Pauli(1, 'Z')])
assert a.commutes_with(b)
''')

S('s125', 'C23', [(PA, "        self.pauli_sum = [ps for ps in self.pauli_sum if ~np.isclose(ps.coeff,0.0)]\n",
"""        largest = max(abs(ps.coeff) for ps in self.pauli_sum)
        self.pauli_sum = [ps for ps in self.pauli_sum if ~np.isclose(ps.coeff,0.0) and abs(ps.coeff) > 1e-6 * largest]
""")], 'a sum with coefficients that differ by more than six orders of magnitude and a repeated term', 'small terms are dropped', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
m = lambda g, c: PauliMonomial([Pauli(0, g, coeff=c)])
s = PauliSum([m('X', 1e4), m('Z', 1e-3), m('X', 1e4)])
assert len(s) == 2
''')

S('s127', 'C26', [(PL, "    assert np.isclose(np.trace(rho), 1), '`rho` is not trace 1'\n", "    assert np.isclose(np.trace(rho), 1, rtol=1e-2), '`rho` is not trace 1'\n")],
'a matrix whose trace is off by half a percent', 'it is not rejected', '''
from oranssi.plot_utils import state_to_spherical
try:
    state_to_spherical(np.diag([1.005, 0.]))
    raise SystemExit('accepted')
except AssertionError:
    pass
''')

S('s128', 'C27', [(PL, ("    omegas = []\n    for uni in unitaries:\n        omegas.append(get_all_su_n_directions(uni, observables, device))\n", 'all'),
"    omegas = []\n    for uni in unitaries[::1 + len(unitaries) // 100]:\n        omegas.append(get_all_su_n_directions(uni, observables, device))\n")],
'a trajectory of a hundred or more unitaries', 'every other point is missing', '''
import matplotlib
matplotlib.use('Agg')
import pennylane as qml
from oranssi.plot_utils import plot_su8_directions_individually
dev = qml.device('default.qubit', wires=2)
rng = np.random.RandomState(0)
us = [np.linalg.qr(rng.randn(4, 4) + 1j * rng.randn(4, 4))[0] for _ in range(120)]
fig, ax = plot_su8_directions_individually(us, [qml.PauliX(0)], dev)
assert all(len(l.get_ydata()) == 120 for l in ax.get_lines())
''')

S('s129', 'C28', [(UT, "    save_path = os.path.join(path, experiment_name)\n", "    save_path = os.path.expanduser(os.path.join(path, experiment_name))\n")],
'a relative path whose first component starts with a tilde', 'another directory (under the home directory) is created', '''
import tempfile, shutil
from oranssi.utils import save_path_creator
d = tempfile.mkdtemp()
old = os.getcwd()
try:
    os.environ['HOME'] = os.path.join(d, 'home')
    os.mkdir(os.path.join(d, 'work'))
    os.chdir(os.path.join(d, 'work'))
    p = save_path_creator('~', 'run')
    assert p == os.path.join('~', 'run') and os.path.isdir(os.path.join(d, 'work', '~', 'run'))
finally:
    os.chdir(old)
    shutil.rmtree(d)
''')

S('s130', 'C29', [(OT, "        result = minimize(cost, x0=[0.1,0.2,0.3], method='Nelder-Mead')\n        dev = qml.device('default.qubit', wires=2)\n", "        result = minimize(cost, x0=[0.1,0.2,0.3] if not np.any(self.params) else self.params, method='Nelder-Mead')\n        dev = qml.device('default.qubit', wires=2)\n")],
'two or more applications of the layer', 'the angles depend on earlier calls', '''
import pennylane as qml
from oranssi.opt_tools import ZassenhausLayerV2
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliX(0), qml.PauliZ(0) @ qml.PauliY(1), qml.PauliY(1)]
L = ZassenhausLayerV2(dev, obs, eta=0.9)
rng = np.random.RandomState(2)
Us = [np.linalg.qr(rng.randn(4, 4) + 1j * rng.randn(4, 4))[0] for _ in range(3)]
a = L(Us[0])
for U in Us:
    L(U)
assert np.max(np.abs(L(Us[0]) - a)) < 1e-9
''')

S('s131', 'C30', [(PA, "                return '\\sigma_{{{}}}^{{{}}}'.format(self.alpha, pauli_idx_int2str_map[self.gamma])\n", "                return '\\sigma_{{{}}}^{{{}}}'.format(str(self.alpha)[-2:], pauli_idx_int2str_map[self.gamma])\n")],
'a site with three digits', 'the TeX form names another site', '''
from oranssi.pauli import Pauli, PauliMonomial
m = PauliMonomial([Pauli(104, 'X'), Pauli(7, 'Z')])
assert '104' in m.tex(coeff=False)
''')

S('s132', 'C31', [(PL, "    im = ax.contourf(phi, theta, costs, cmap='Blues')\n", "    if np.shape(costs) == (len(phi), len(theta)):\n        costs = np.transpose(costs)\n    im = ax.contourf(phi, theta, costs, cmap='Blues')\n")],
'a square grid', 'the landscape is drawn transposed', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oranssi.plot_utils import plot_bloch_sphere_2d
fig, ax = plt.subplots(dpi=100)
x = np.linspace(0, 1, 12)
z = np.repeat(np.arange(12.)[:, None], 12, axis=1)      # grows with theta
plot_bloch_sphere_2d(x, x, z, ax, fig)
fig.canvas.draw()
img = np.asarray(fig.canvas.buffer_rgba())[:, :, :3].astype(float).sum(axis=2)
def at(a, b):
    px, py = ax.transData.transform((a, b))
    return img[img.shape[0] - 1 - int(py), int(px)]
assert abs(at(0.2, 0.5) - at(0.8, 0.5)) < 1 and at(0.5, 0.2) > at(0.5, 0.8) + 50
''')

S('s133', 'C31', [(PL, "    for item in ([ax.xaxis.label, ax.yaxis.label] +\n                 ax.get_xticklabels() + ax.get_yticklabels()):\n        item.set_fontsize(newsize)\n",
"    for a in ax.figure.axes if len(ax.figure.axes) > 2 else [ax]:\n        for item in ([a.xaxis.label, a.yaxis.label] +\n                     a.get_xticklabels() + a.get_yticklabels()):\n            item.set_fontsize(newsize)\n")],
'a figure with three or more panels', 'the labels of the other panels change as well', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oranssi.plot_utils import change_label_fontsize
fig, axs = plt.subplots(1, 3)
axs[1].set_xlabel('x')
s = axs[1].xaxis.label.get_fontsize()
change_label_fontsize(axs[0], 33)
assert axs[1].xaxis.label.get_fontsize() == s
''')

S('s134', 'C32', [(AG, """            graph.add_node(p_a_comm_b, depth=max_depth+1)
""", """            graph.add_node(p_a_comm_b, depth=min(graph.nodes[comb[0]]['depth'], graph.nodes[comb[1]]['depth'])+1)
""")], 'a word that needs three or more rounds of commutators', 'its depth is too small', '''
import io, contextlib
sys.path.insert(0, 'experiments_paper')
import matplotlib
matplotlib.use('Agg')
import algebra_graphs as ag
from oranssi.pauli import Pauli, PauliMonomial
m = lambda w: PauliMonomial([Pauli(i, c) for i, c in enumerate(w)])
G = ag.generate_product_algebra_digraph([m('XXI'), m('IXX'), m('ZII'), m('IZI'), m('IIZ')])
import itertools
depth = {(str(p.__repr__(coeff=False)), bool(np.isreal(p.coeff))): d['depth'] for p, d in G.nodes(data=True)}
S = [m('XXI'), m('IXX'), m('ZII'), m('IZI'), m('IIZ')]
want = {(p.__repr__(coeff=False), True): 0 for p in S}
d = 0
while True:
    d += 1
    new = []
    for a, b in itertools.product(S, S):
        c = a.commutator(b)
        c.coeff *= -0.5
        k = (c.__repr__(coeff=False), bool(np.isreal(c.coeff)))
        if abs(c.coeff) > 1e-9 and k not in want:
            want[k] = d
            new.append(c)
    if not new:
        break
    S += new
assert max(want.values()) >= 2 and depth == want, (depth, want)
''')

S('s135', 'C32', [(PA, """        return hash(
            f'{"re" if np.isreal(self.coeff) else "im"}' + ' '.join(p.__repr__(coeff=False) for p in self.monomial))
""", """        if not hasattr(self, '_hash'):
            self._hash = hash(
                f'{"re" if np.isreal(self.coeff) else "im"}' + ' '.join(p.__repr__(coeff=False) for p in self.monomial))
        return self._hash
""")], 'a monomial that is hashed and whose coefficient then changes between real and imaginary', 'its hash is stale: it is not found in sets that contain it', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X')])
hash(a)
a.coeff = a.coeff * 1j
b = PauliMonomial([Pauli(0, 'X', coeff=1j)])
assert a == b and hash(a) == hash(b) and a in {b}
''')

S('s136', 'C05', [(OT, ("            qubits = [(q,) for q in idx] + list(it.combinations(idx, r=2))\n", 2), "            qubits = [(q,) for q in idx] + [c for c in it.combinations(idx, r=2) if c[1] - c[0] < 6]\n")],
'a register of seven or more qubits', 'the generators on the most distant qubits are missing', '''
from oranssi.opt_tools import AlgebraSU4
a = AlgebraSU4(7)
a.get_all_directions_and_qubits()
assert len(a.full_paulis) == 9 * 21
''', multi=True)

S('s137', 'C21', [(OT, """        self.qml_observables = observables
""", """        observables.sort(key=lambda o: len(o.wires))
        self.qml_observables = observables
""")], 'an observable list that is not ordered by the number of qubits', 'the list of the caller is reordered', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
obs = [qml.PauliX(0) @ qml.PauliX(1), qml.PauliZ(0)]
keep = list(obs)
LocalLieAlgebraLayer(dev, obs, locality=1)
assert all(a is b for a, b in zip(obs, keep))
''')

S('s138', 'C14', [(OT, "    eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)\n", "    eta = -np.pi / 2 - np.arctan(np.float64(2 * H_0 - H_p - H_m) / (H_p - H_m if H_p != H_m else 1e-300)) - (np.pi if H_p < H_m - 1e-9 else 0)\n")],
'a curve whose slope at the start is positive, but tiny, or a start exactly at the maximum', 'the search ends in the maximum instead of the minimum', '''
import pennylane as qml
from oranssi.opt_tools import rotosolve
from oranssi.circuit_tools import circuit_observable_from_unitary
dev = qml.device('default.qubit', wires=1)
q = qml.QNode(circuit_observable_from_unitary, dev)
Y = np.array([[0, -1j], [1j, 0]])
for t in (0., 1e-10, -1e-10, 1e-7, -1e-7, np.pi, np.pi - 1e-10, np.pi + 1e-10):
    c, s = np.cos(t / 2), np.sin(t / 2)
    U, eta = rotosolve(Y, [qml.PauliZ(0)], q, np.array([[c, -s], [s, c]], dtype=complex), 1)
    assert abs(q(unitary=U, observable=qml.PauliZ(0)) + 1) < 1e-6, t
''')
