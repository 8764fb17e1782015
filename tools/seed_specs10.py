SPECS = []
def S(id, property, edits, needs, breaks, demo, multi=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, multi=multi))
CT, OT, OP, UT, PA, EC, PL = 'circuit_tools.py', 'opt_tools.py', 'optimizers.py', 'utils.py', 'pauli.py', 'edge_coloring.py', 'plot_utils.py'

S('s340', 'C33', [(EC, """    return max(
        [conflict_level for conflict_level in conflict_dictionary if len(conflict_dictionary[conflict_level]) > 0])
""", """    for conflict_level in conflict_dictionary:
        if len(conflict_dictionary[conflict_level]) > 0:
            break
    return conflict_level
""")], 'conflicts of different levels at the same time', 'the smallest instead of the highest level is worked on', '''
from oranssi.edge_coloring import maxConflictLevel
assert maxConflictLevel({1: {4}, 2: {7}, 3: set()}) == 2
''')

S('s341', 'C33', [(EC, "            repetitionCounter = 0\n", "            repetitionCounter = max(repetitionCounter - 1, 0)\n")],
 'a repair with several rounds without progress, one with progress and again several without', 'the rounds before the progress still count, so the heuristic gives up too early', '''
import random
import networkx as nx
from oranssi import edge_coloring as E
G = nx.complete_graph(7)
random.seed(0)
E.preColoring(G, 6)
seq = []
start = E.KempeStart
def rec(*a, **k):
    r = start(*a, **k)
    seq.append(sum(E.conflictLevel(G, u) for u in G))
    return r
E.KempeStart = rec
for s in range(60):
    random.seed(s)
    E.preColoring(G, 6)
    del seq[:]
    best = sum(E.conflictLevel(G, u) for u in G)
    ok = E.heuristic(G, 6, 4)
    idle = 0
    for now in seq:
        assert idle <= 4, seq
        idle = 0 if now < best else idle + 1
        best = min(best, now)
    assert ok or idle == 5, seq
''')

S('s342', 'C33', [(EC, "        if number_of_iterations > iteration_limit:\n", "        if number_of_iterations >= iteration_limit:\n")],
 'a graph that cannot be coloured with the given number of colours', 'one restart fewer than allowed is made', '''
import networkx as nx
from oranssi import edge_coloring as E
G = nx.complete_graph(3)
n = []
pre = E.preColoring
def rec(*a):
    n.append(1)
    return pre(*a)
E.preColoring = rec
assert not E.applyHeuristic(G, 2, 1, 4)
assert len(n) == 5, len(n)
''')

S('s343', 'C33', [(EC, "        if available_colors == set():\n", "        if not available_colors or len(available_colors) < 2 < D:\n")],
 'an edge for which exactly one of three or more colours is free', 'a colour in use may be taken although one is free', '''
import random
import networkx as nx
from oranssi import edge_coloring as E
for s in range(30):
    random.seed(s)
    G = nx.star_graph(4)
    E.preColoring(G, 4)
    assert E.checkEdgeColoring(G, 4)
''')

S('s345', 'C15', [(OT, "np.isclose(v, max_value, atol=1e-3)", "np.isclose(v, max_value, rtol=2e-2, atol=1e-3)")],
 'gradients well above one that differ by less than two percent', 'a rotation on qubits that do not carry the maximal gradient', '''
import pennylane as qml
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=2)
obs = [qml.Hermitian(2.0 * np.array([[1, 0], [0, -1]], complex), wires=[0]), qml.Hermitian(1.98 * np.array([[1, 0], [0, -1]], complex), wires=[1])]
Y = np.array([[0, -1j], [1j, 0]])
r = (np.eye(2) * np.cos(0.6) - 1j * np.sin(0.6) * Y)
U = np.kron(r, r)
L = SquaredLieAlgebraLayer(dev, obs)
V, gates = L(U, commute=True, optimizer=parameter_shift_optimizer)
assert all(g[0][1:] == (0,) for g in gates), gates
''')

S('s346', 'C14', [(OT, "            if k != self.previous_pauli:\n                omegas[k] = 0\n", "            if k[0] != self.previous_pauli[0] or not set(k[1:]) & set(self.previous_pauli[1:]):\n                omegas[k] = 0\n")],
 'the best word is the word of the previous step on a set of qubits sharing one with it', 'another word is chosen', '''
import pennylane as qml
from scipy.linalg import expm
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.circuit_tools import get_full_operator
from oranssi.utils import get_su_4_operators, get_su_2_operators
rng = np.random.default_rng(2)
dev = qml.device('default.qubit', wires=3)
for t in range(60):
    H = rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8))
    H = H + H.conj().T
    L = SquaredLieAlgebraLayer(dev, [qml.Hermitian(H, wires=[0, 1, 2])])
    U = np.linalg.qr(rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8)))[0]
    for _ in range(4):
        prev = L.previous_pauli
        psi = U[:, 0]
        g = {k: abs((psi.conj() @ (P @ H - H @ P) @ psi).imag) for k, P in L.lastate.full_paulis.items() if k != prev}
        U = L(U)
        assert g[L.previous_pauli] > max(g.values()) - 1e-7, (t, prev)
''')

S('s347', 'C09', [(OP, ("            U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)\n", 1), "            U_riemann_exact = (V @ np.diag(np.exp(-1j * min(eta, 0.98) / 2 * S)) @ V.conj().T)\n")],
 'a step size above 0.98', 'the costs do not follow the recursion', '''
import pennylane as qml
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=1)
def circ(params, **k):
    qml.RY(0.7, wires=0)
    return qml.state()
c = exact_lie_optimizer(circ, [], [qml.PauliZ(0)], dev, eta=1.0, nsteps=3, tol=0.0)
a = 0.7
for x in c:
    assert abs(x - np.cos(a)) < 1e-9, c
    a += np.sin(a)
''', True)

S('s348', 'C16', [(OT, "        params_ext.append([0.1 for _ in range(self.nqubits)])\n", "        params_ext.append([0.1 if len(self.layers) <= 6 else 0.05 for _ in range(self.nqubits)])\n")],
 'a seventh growth step', 'the new parameters start somewhere else', '''
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
dev = qml.device('default.qubit', wires=2)
L = AdaptVQELayer(dev, [qml.PauliX(0) @ qml.PauliX(1), qml.PauliZ(0)])
p, U = [], np.eye(4, dtype=complex)
for s in range(9):
    def opt(circuit, params, *a, **k):
        assert list(params[-1]) == [0.1, 0.1], params
        return [0.0], [np.array(params)]
    U, p = L(U, params=p, optimizer=opt)
''')

S('s350', 'C10', [(OP, """                    H = -1j * random_matrix
                    # avoid matrix exponential by diagonalizing
                    S, V = np.linalg.eigh(H)
                    U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)
                    # update the circuit unitary
                    circuit_unitary = U_riemann_exact @ circuit_unitary
                else:
                    print(
                        f'Cost difference between steps < {tol}, stopping early at step {step}...')
                    break
    print(f"Final cost = {cost_exact[-1]}")
    returnables = [cost_exact, states, np""", """                    H = -1j * random_matrix
                    # avoid matrix exponential by diagonalizing
                    S, V = np.linalg.eigh(H)
                    U_riemann_exact = (V @ np.diag(np.exp(-1j * eta / 2 * S)) @ V.conj().T)
                    # update the circuit unitary
                    circuit_unitary = U_riemann_exact @ circuit_unitary
                    if return_unitary:
                        unitaries[-1] = circuit_unitary
                else:
                    print(
                        f'Cost difference between steps < {tol}, stopping early at step {step}...')
                    break
    print(f"Final cost = {cost_exact[-1]}")
    returnables = [cost_exact, states, np""")],
 'a layered run with a perturbation whose unitaries are asked for', 'the unitary of that step does not belong to its cost', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=2)
def circ(params, **k):
    qml.RX(0.4, wires=0)
    qml.RY(0.9, wires=1)
    return qml.state()
np.random.seed(1)
obs = [qml.PauliX(0), qml.PauliZ(1)]
c, s, u = approximate_lie_optimizer(circ, [], obs, dev, layers=[LocalLieAlgebraLayer(dev, obs, 1, eta=0.01)], nsteps=14, eta=1.0, tol=1.0, perturb=True, return_state=True, return_unitary=True)
for a, b in zip(s, u):
    assert np.allclose(a, b[:, 0])
''')

S('s351', 'C18', [(OP, "            if np.isclose(cost_exact[-1], cost_exact[-6], atol=tol):\n", "            if np.isclose(cost_exact[-1], cost_exact[-min(max(6, len(layers) + 1), 11)], atol=tol):\n")],
 'more than five layers in the list', 'the early stop compares with another cost', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
class L(LocalLieAlgebraLayer):
    n = 0
    def __call__(self, U, *a, **k):
        L.n += 1
        t = 0.3 * min(L.n, 5)
        return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]], complex)
def circ(params, **k):
    qml.Hadamard(wires=0)
    return qml.state()
obs = [qml.PauliZ(0)]
c = approximate_lie_optimizer(circ, [], obs, dev, layers=[L(dev, obs, 1) for _ in range(8)], nsteps=30, tol=1e-6)
assert len(c) == 11, len(c)
''', True)

S('s352', 'C19', [(OP, "        params, cost = opt.step_and_cost(cost_fn, params)\n", "        params, cost = opt.step_and_cost(cost_fn, params)\n        if step >= 40:\n            opt.update_stepsize(opt.stepsize * 0.99)\n")],
 'a run of more than 40 steps', 'later steps are too short', '''
import pennylane as qml
from oranssi.optimizers import parameter_shift_optimizer
dev = qml.device('default.qubit', wires=1)
def circ(params, **k):
    qml.RX(params[0], wires=0)
c, p = parameter_shift_optimizer(circ, [0.2], [qml.PauliZ(0)], dev, eta=0.03, nsteps=60, tol=0.0, return_params=True)
t = 0.2
for x in p:
    assert abs(x[0] - t) < 1e-8
    t += 0.03 * np.sin(t)
''')

S('s353', 'C08', [(OP, """        for o in observables:
            # get rho from the circuit
            phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
            rho = np.outer(phi, phi.conj().T)
""", """        moved = set()
        for o in observables:
            # get rho from the circuit, unless the qubits of o are still where they were
            if not moved or moved & set(o.wires.tolist()) or nqubits < 3:
                phi = circuit_state_from_unitary_qnode(unitary=circuit_unitary)
                rho = np.outer(phi, phi.conj().T)
            moved |= set(o.wires.tolist())
""")], 'three or more qubits and consecutive observables on different qubits', 'the state of the previous observable is used', '''
import pennylane as qml
from scipy.linalg import expm
from oranssi.optimizers import exact_lie_optimizer
dev = qml.device('default.qubit', wires=3)
def circ(params, **k):
    for i in range(3):
        qml.RY(0.5 + i, wires=i)
    qml.CNOT(wires=[0, 1])
    return qml.state()
obs = [qml.PauliX(0), qml.PauliZ(1)]
c, s = exact_lie_optimizer(circ, [], obs, dev, eta=0.9, nsteps=1, return_state=True)
psi = np.array(s[0])
X, Z, I = np.array([[0, 1], [1, 0]]), np.diag([1, -1]), np.eye(2)
for O in (np.kron(X, np.eye(4)), np.kron(I, np.kron(Z, I))):
    r = np.outer(psi, psi.conj())
    psi = expm(0.45 * (r @ O - O @ r)) @ psi
assert np.allclose(psi, s[1])
''')

S('s356', 'C28', [(UT, "    save_path = os.path.join(path, experiment_name)\n", "    save_path = os.path.expandvars(os.path.join(path, experiment_name))\n")],
 'a dollar sign followed by the name of an environment variable in the path', 'another directory is made', '''
import tempfile
from oranssi.utils import save_path_creator
with tempfile.TemporaryDirectory() as d:
    os.environ['RUN'] = 'x'
    assert save_path_creator(d, '$RUN') == os.path.join(d, '$RUN')
''')

S('s359', 'C23', [(PA, "        duplicates = set([i for i in self.pauli_sum if self.pauli_sum.count(i)>1])\n", "        self.pauli_sum = [ps for ps in self.pauli_sum if isinstance(ps.coeff, sp.Basic) or abs(ps.coeff) > 1e-6]\n        duplicates = set([i for i in self.pauli_sum if self.pauli_sum.count(i)>1])\n")],
 'a term whose coefficient is at most 1e-6', 'it is dropped', '''
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
s = PauliSum([PauliMonomial([Pauli(0, 'X', coeff=5e-7)])])
s.scalar_mul(1e7)
assert len(s) == 1
''')

S('s371', 'C11', [(OT, "        P, _, Q = np.linalg.svd(U)\n        return P @ Q\n", "        P, S, Q = np.linalg.svd(U)\n        if S[-1] < 1e-6 * S[0]:\n            # almost singular\n            return np.linalg.qr(U)[0]\n        return P @ Q\n")],
 'projecting an almost singular matrix', 'the result is unitary, but not the nearest one', '''
import pennylane as qml
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
L = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)
rng = np.random.default_rng(1)
q = lambda: np.linalg.qr(rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2)))[0]
a, b = q(), q()
M = a @ np.diag([1.0, 1e-7]) @ b
assert np.allclose(L._project_onto_unitary(M), a @ b, atol=1e-6)
''')

S('s372', 'C07', [(CT, """    return gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (
            rho @ gate(-np.pi / 2).conj().T)
""", """    comm = gate(np.pi / 2) @ (rho @ gate(np.pi / 2).conj().T) - gate(-np.pi / 2) @ (
            rho @ gate(-np.pi / 2).conj().T)
    return comm if np.max(np.abs(comm)) > 1e-7 else np.zeros_like(comm)
""")], 'a state that almost commutes with the observable', 'the commutator is reported as zero', '''
from scipy.linalg import expm
from oranssi.circuit_tools import param_shift_comm
Z = np.diag([1.0, -1.0]).astype(complex)
t = 1e-8
v = np.array([np.cos(t), np.sin(t)])
rho = np.outer(v, v).astype(complex)
c = param_shift_comm(rho, lambda x: expm(-0.5j * x * Z))
w = 1j * (rho @ Z - Z @ rho)
assert np.max(np.abs(c - w)) < 1e-12
''')

S('s374', 'C20', [(OP, ("    assert (isinstance(nsteps_optimizer, int) & (1 <= nsteps_optimizer <= np.inf)), \\\n", 3), "    assert (isinstance(nsteps_optimizer, int) & (0 <= nsteps_optimizer <= np.inf)), \\\n")],
 'a step count of zero for the layered optimizer', 'it is accepted', '''
import pennylane as qml
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LocalLieAlgebraLayer
dev = qml.device('default.qubit', wires=1)
def circ(params, **k):
    qml.Hadamard(wires=0)
    return qml.state()
o = [qml.PauliZ(0)]
try:
    approximate_lie_optimizer(circ, [], o, dev, layers=[LocalLieAlgebraLayer(dev, o, 1)], nsteps=0)
except AssertionError:
    pass
else:
    raise AssertionError('accepted')
''', True)

S('s375', 'C24', [(PA, "            return self_gammas < other_gammas\n", "            return self_gammas[:8] < other_gammas[:8]\n")],
 'monomials of nine or more factors that agree in the first eight', 'they are not ordered', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(i, 'X') for i in range(9)])
b = PauliMonomial([Pauli(i, 'X') for i in range(8)] + [Pauli(8, 'Z')])
assert a < b and not b < a
''')

S('s376', 'C22', [(PA, "        return (right_side.coeff == left_side.coeff)\n", "        return bool(np.isclose(complex(right_side.coeff), complex(left_side.coeff))) if not isinstance(left_side.coeff, sp.Basic) else right_side.coeff == left_side.coeff\n")],
 'monomials with coefficients below 1e-4', 'anticommuting ones are said to commute', '''
from oranssi.pauli import Pauli, PauliMonomial
a = PauliMonomial([Pauli(0, 'X', coeff=1e-5)])
b = PauliMonomial([Pauli(0, 'Z', coeff=1e-5)])
assert not a.commutes_with(b)
''')
