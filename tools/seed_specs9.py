SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'

S('s301', 'C13', [(OT, ("""            self.reset_qubits()
            idx = np.where(self.qubits_left == 0)[0].tolist()
        if not self.directions_left:""", 2), """            last = self.last_qubits
            self.reset_qubits()
            if self.nqubits > 4:
                # do not touch the same qubit twice in a row
                self.qubits_left[last[:1]] = 1
            idx = np.where(self.qubits_left == 0)[0].tolist()
        if not self.directions_left:"""), (OT, ("        self.qubits_left[qubits] = 1\n", 2), "        self.qubits_left[qubits] = 1\n        self.last_qubits = qubits\n")],
 'a stochastic layer on five or more qubits and more than one round of draws', 'a qubit is left out of a round, so that others are used again first', '''
from oranssi.opt_tools import AlgebraSU4
np.random.seed(3)
A = AlgebraSU4(5, add_su2=True)
used = []
for _ in range(200):
    d, q = A.get_random_direction_and_qubits()
    q = list(q)
    assert not set(q) & set(used), (q, used)
    used += q
    if len(set(used)) == 5:
        used = []
''', True)

S('s302', 'C13', [(OT, "            self.directions_left = self.directions_left + get_su_2_operators(return_names=True)[1]\n",
"            self.directions_left = self.directions_left + [d for d in get_su_2_operators(return_names=True)[1] if d != self.directions[0]]\n")],
 'the one-qubit directions are used up while two-qubit directions are left', 'X does not come back with the others', '''
from oranssi.opt_tools import AlgebraSU4
for s in range(20):
    np.random.seed(s)
    A = AlgebraSU4(3, add_su2=True)
    used = []
    for _ in range(300):
        d, q = A.get_random_direction_and_qubits()
        if len(d) == 1:
            assert d not in used
            used.append(str(d))
            if len(used) == 3:
                used = []
''')

S('s304', 'C17', [(OT, "                if abs(v)>1e-3 and abs(omegas_A)>1e-3:\n", "                if abs(v)>1e-2 and abs(omegas_A)>1e-3:\n")],
 'a second-phase step at which every candidate has a gradient between 1e-3 and 1e-2', 'the step is skipped', '''
import pennylane as qml
from scipy.linalg import expm
from oranssi.opt_tools import ZassenhausLayer
from oranssi.circuit_tools import get_full_operator
dev = qml.device('default.qubit', wires=3)
rng = np.random.default_rng(0)
H = rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8))
H = H + H.conj().T
o = [qml.Hermitian(5e-3 * H / np.abs(np.linalg.eigvalsh(H)).max(), wires=[0, 1, 2])]
L = ZassenhausLayer(dev, o, eta=1.0)
U = np.linalg.qr(rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8)))[0]
V = L(U)
L.current_pauli = L.current_pauli
W = L(V)
assert np.max(np.abs(W - V)) > 1e-6
''')

S('s305', 'C17', [(OT, "                if abs(v)>1e-3 and abs(omegas_A)>1e-3:\n", "                if abs(v)>1e-3 and abs(omegas_A)>5e-2:\n")],
 'a line search that ends in an angle between 1e-3 and 5e-2', 'the second phase is skipped', '''
import pennylane as qml
from oranssi.opt_tools import ZassenhausLayer
dev = qml.device('default.qubit', wires=3)
o = [qml.PauliZ(0) @ qml.PauliZ(1), qml.PauliZ(1) @ qml.PauliZ(2), qml.PauliX(0) @ qml.PauliX(1) @ qml.PauliX(2), qml.PauliY(0)]
found = False
for s in range(60):
    rng = np.random.default_rng(s)
    U = np.linalg.qr(rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8)))[0]
    L = ZassenhausLayer(dev, o, eta=1.0, ratio=(1, 1))
    L.su_state = 'su8'
    L.current_pauli = ('XY', 0, 1)
    L.previous_eta = 0.02
    if np.max(np.abs(L(U) - U)) > 1e-6:
        found = True
assert found
''')

S('s308', 'C16', [(OT, "            if direction != self.previous_direction:\n                if len(direction) == 1:", "            if direction != self.previous_direction and (len(self.layers) < 4 or direction != self.layers[-2][0]):\n                if len(direction) == 1:")],
 'the fifth layer of an ansatz, when the direction of the third has the largest gradient again', 'another direction is used', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
o = [qml.PauliX(0), qml.PauliZ(0) @ qml.PauliZ(1)]
def opt(circuit, params, observables, device, **kw):
    return [0.], [np.array(params)]
L = AdaptVQELayer(dev, o)
U = np.eye(4, dtype=complex)
p = []
P = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}
W = lambda w: np.kron(P[w[0]], P[w[1]])
S1 = lambda c: [np.kron(P[c], np.eye(2)), np.kron(np.eye(2), P[c])]
H = [S1('X')[0], W('ZZ')]
prev = None
rng = np.random.default_rng(5)
for step in range(9):
    Z = np.linalg.qr(rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)))[0]
    psi = Z[:, 0]
    g = {}
    for d in ['X', 'Y', 'Z'] + [a + b for a in 'XYZ' for b in 'XYZ']:
        ms = S1(d) if len(d) == 1 else [W(d)]
        g[d] = sum(abs(sum((psi.conj() @ (m @ h - h @ m) @ psi).imag for h in H)) for m in ms)
    U, p = L(Z, params=p, optimizer=opt)
    used = L.layers[-1][0]
    best = max(v for d, v in g.items() if d != prev)
    assert abs(g[used] - best) < 1e-9
    prev = used
''')

S('s309', 'C16', [(OT, "        params_ext.append([0.1 for _ in range(self.nqubits)])\n", "        params_ext.append([0.1 / max(1, len(self.layers) - 3) for _ in range(self.nqubits)])\n")],
 'the fifth layer of an ansatz', 'the new parameters do not start at 0.1', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
dev = qml.device('default.qubit', wires=2)
seen = []
def opt(circuit, params, observables, device, **kw):
    seen.append([list(map(float, x)) for x in params])
    return [0.], [np.array(params)]
L = AdaptVQELayer(dev, [qml.PauliX(0), qml.PauliZ(0) @ qml.PauliZ(1)])
rng = np.random.default_rng(5)
p = []
for step in range(6):
    Z = np.linalg.qr(rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)))[0]
    U, p = L(Z, params=p, optimizer=opt)
    assert seen[-1][-1] == [0.1, 0.1]
''')

S('s310', 'C18', [(OP, "        if step > 3:\n            if np.isclose(cost_exact[-1], cost_exact[-2], atol=tol):\n                if perturbation:", "        if step > 3 and not (perturbation and step == nsteps_optimizer - 1):\n            if np.isclose(cost_exact[-1], cost_exact[-2], atol=tol):\n                if perturbation:")],
 'a perturbed exact run whose rule fires at its last step', 'the last perturbation is missing', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(0.3, wires=0)
    return qml.state()
r = exact_lie_optimizer(c, [], [qml.PauliZ(0)], dev, nsteps=7, eta=0.0, tol=1e-3, perturbation=True, return_perturbations=True)
assert r[1] == [4, 5, 6]
''')

S('s311', 'C18', [(OP, ("                    random_matrix = 0.5 * (random_matrix - random_matrix.T)\n                    H = -1j * random_matrix\n", 2),
"""                    if len(perturbations) > 4:
                        # try another kind of direction
                        H = 0.5 * (random_matrix + random_matrix.T)
                    else:
                        random_matrix = 0.5 * (random_matrix - random_matrix.T)
                        H = -1j * random_matrix
""")], 'the fifth perturbation of a run', 'the rotation is not real', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(0.0, wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
np.random.seed(1)
r = approximate_lie_optimizer(c, [], o, dev, layers=[LocalLieAlgebraLayer(dev, o, 1, eta=0.0)], nsteps=22, tol=1.0, eta=0.9, perturb=True, return_unitary=True)
for a, b in zip(r[1][:-1], r[1][1:]):
    assert np.max(np.abs((b @ a.conj().T).imag)) < 1e-9
''', True)

S('s313', 'C20', [(OP, """    escape_tol = kwargs.get('escape_tol', 1e-3)
    assert (isinstance(escape_tol, float)), \\
        f'`escape_tol` must be a boolean, received {escape_tol}'
""", """    escape_tol = float(kwargs.get('escape_tol', 1e-3))
""")], 'an escape tolerance given as a string or integer', 'it is accepted', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(0.3, wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
try:
    approximate_lie_optimizer(c, [], o, dev, layers=[LocalLieAlgebraLayer(dev, o, 1)], nsteps=2, escape_tol='0.1')
    raise SystemExit(1)
except AssertionError:
    pass
''', True)

S('s314', 'C20', [(OP, """    return_zassenhaus = kwargs.get('return_zassenhaus', False)
    assert (isinstance(return_zassenhaus, bool)), \\
        f'`return_zassenhaus` must be a boolean, received {return_zassenhaus}'
""", """    return_zassenhaus = kwargs.get('return_zassenhaus', False)
"""), (OP, """    for step in range(nsteps_optimizer):
        cost_exact.append(0)
        layer = next(lie_layers)
""", """    assert (isinstance(return_zassenhaus, bool)), \\
        f'`return_zassenhaus` must be a boolean, received {return_zassenhaus}'
    for step in range(nsteps_optimizer):
        cost_exact.append(0)
        layer = next(lie_layers)
""")], 'a return_zassenhaus flag that is not a boolean', 'the device is used before it is rejected', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(0.3, wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
L = LocalLieAlgebraLayer(dev, o, 1)
n = dev.num_executions
try:
    approximate_lie_optimizer(c, [], o, dev, layers=[L], nsteps=2, return_zassenhaus=1)
    raise SystemExit(1)
except AssertionError:
    assert dev.num_executions == n
''', True)

S('s315', 'C21', [(OP, """        # early stopping
        if (tol is not None) & (step > 8):
            if np.isclose(cost_exact[-1], cost_exact[-6], atol=tol):
                if perturb:
                    perturbations.append(step)
                    print(f'Cost difference between steps < {tol}, perturbing at step {step}...')
                    random_matrix = np.random.randn(2 ** nqubits, 2 ** nqubits) * 0.1
""", """        # early stopping
        if (tol is not None) & (step > 8):
            if np.isclose(cost_exact[-1], cost_exact[-6], atol=tol):
                random_matrix = np.random.randn(2 ** nqubits, 2 ** nqubits) * 0.1
                if perturb:
                    perturbations.append(step)
                    print(f'Cost difference between steps < {tol}, perturbing at step {step}...')
""")], 'a run without perturbation that stops early', 'it consumes random numbers', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
def c(params):
    qml.RX(0.3, wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
np.random.seed(1)
a = np.random.rand()
np.random.seed(1)
approximate_lie_optimizer(c, [], o, dev, layers=[LocalLieAlgebraLayer(dev, o, 1, eta=0.0)], nsteps=20, tol=1e-2)
assert np.random.rand() == a
''', True)

S('s317', 'C27', [(PL, ("        if not np.allclose(om, 0):\n            axs.plot(om, label=''.join(list(su4_names[i])),  linewidth=LINEWIDTH)", 1), "        if not np.allclose(om[-1:], 0) or not np.allclose(om[:-1], om[1:], atol=1e-2):\n            axs.plot(om, label=''.join(list(su4_names[i])),  linewidth=LINEWIDTH)")],
 'a two-qubit word with small gradients that vanish at the end of the trajectory', 'its curve is missing', '''
import matplotlib
matplotlib.use('Agg')
import pennylane as qml
from oranssi.plot_utils import plot_su8_directions_individually
from oranssi.circuit_tools import get_all_su_n_directions
dev = qml.device('default.qubit', wires=2)
from scipy.linalg import expm
X = np.array([[0, 1], [1, 0]]); Z = np.diag([1, -1])
Us = [expm(-1j * t * np.kron(X, np.eye(2))) for t in (4e-3, 2e-3, 0.)]
o = [qml.PauliZ(0)]
fig, ax = plot_su8_directions_individually(Us, o, dev)
want = {k for k in get_all_su_n_directions(Us[0], o, dev) if k.count('I') <= 1 and any(abs(get_all_su_n_directions(U, o, dev)[k]) > 1e-6 for U in Us)}
got = {l.get_label() for l in ax.get_lines()}
assert want and want <= got
''', True)

S('s320', 'C30', [(OT, """                                 self.trotterize) + " directions -> " + ", ".join([d[0] for d in self.directions])""", """                                 self.trotterize) + " directions -> " + ", ".join([d[0] for d in self.directions][:60])""")],
 'a custom-direction layer with more than sixty generators', 'directions are missing from the printed row', '''
import pennylane as qml
from oranssi.opt_tools import CustomDirectionLieAlgebraLayer
dev = qml.device('default.qubit', wires=4)
L = CustomDirectionLieAlgebraLayer(dev, [qml.PauliZ(0)], directions=None)
assert len(repr(L).split('directions -> ')[1].split(', ')) == len(L.get_lie_algebra_directions_strings())
''')

S('s321', 'C31', [(PL, "    im = ax.contourf(phi, theta, costs, cmap='Blues')\n", "    if np.ptp(costs) < 1e-2 * np.abs(costs).max():\n        # show the differences\n        costs = costs - costs.min()\n    im = ax.contourf(phi, theta, costs, cmap='Blues')\n")],
 'costs that vary by less than a percent', 'the colour bar shows other values', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oranssi.plot_utils import plot_bloch_sphere_2d
fig, ax = plt.subplots()
phi, theta = np.linspace(0, 2 * np.pi, 20), np.linspace(0, np.pi, 10)
C = 50 + 0.1 * np.outer(np.cos(theta), np.ones(20))
plot_bloch_sphere_2d(phi, theta, C, ax, fig)
lo, hi = fig.axes[1].get_ylim()
assert lo > 49 and hi < 51
''')

S('s323', 'C11', [(OT, "        if unitary_error > 1e-8:\n", "        if unitary_error > (1e-8 if self.nqubits < 4 else 1e-6):\n")],
 'a matrix on four or more qubits that is not unitary by a little', 'it passes the unitarity test', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=4)
L = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)
assert not L._is_unitary(np.eye(16) * (1 + 1e-7))
''')

S('s328', 'C03', [(CT, "    for i, o in enumerate(observables):\n        hamiltonian += coeffs[i] * get_full_operator(o.matrix, o.wires, nqubits)\n", "    if len(coeffs) > 0:\n        coeffs = np.asarray(coeffs, dtype=type(coeffs[0]))\n    for i, o in enumerate(observables):\n        hamiltonian += coeffs[i] * get_full_operator(o.matrix, o.wires, nqubits)\n")],
 'coefficients the first of which is an integer and another is not', 'the others are rounded down', '''
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
H = get_hamiltonian_matrix(1, [qml.PauliZ(0), qml.PauliX(0)], [1, 0.5])
assert abs(H[0, 1] - 0.5) < 1e-12
''')

S('s329', 'C10', [(OP, ("""    for op, wires in zip(circuit_as_numpy_ops, circuit_as_numpy_wires):
        circuit_unitary = get_full_operator(op, wires, nqubits) @ circuit_unitary
""", 2), """    block = np.eye(2 ** nqubits, 2 ** nqubits, dtype=complex)
    for i, (op, wires) in enumerate(zip(circuit_as_numpy_ops, circuit_as_numpy_wires)):
        block = get_full_operator(op, wires, nqubits) @ block
        if i % 16 == 15:
            circuit_unitary = block @ circuit_unitary
            block = np.eye(2 ** nqubits, 2 ** nqubits, dtype=complex)
    circuit_unitary = circuit_unitary @ block
""")], 'a circuit of more than sixteen gates', 'the remaining gates are applied first', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
def c(params):
    for k in range(9):
        qml.RX(0.1 * k, wires=0)
        qml.RZ(0.3 * k, wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
r = approximate_lie_optimizer(c, [], o, dev, layers=[LocalLieAlgebraLayer(dev, o, 1)], nsteps=1, return_state=True)
assert np.max(np.abs(r[1][0] - qml.QNode(c, dev)([]))) < 1e-9
''', True)

S('s330', 'C23', [(PA, "        # enable multiplication of monomials\n        new_pauli_sum = copy.copy(self.pauli_sum) + copy.copy(other.pauli_sum)\n", "        # enable multiplication of monomials\n        if not len(other):\n            return self\n        new_pauli_sum = copy.copy(self.pauli_sum) + copy.copy(other.pauli_sum)\n")],
 'adding an empty sum, then scaling the result', 'the operand is scaled as well', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
a = PauliSum([PauliMonomial([Pauli(0, 'X')])])
z = a - a
assert len(z) == 0
s = a + z
s.scalar_mul(3.0)
assert a[0].coeff == 1
''')
