"""Bridges between JSON case descriptions and PennyLane objects (imports PennyLane, not oranssi)."""
import numpy as np
import pennylane as qml

from . import ref


def device(n):
    return qml.device('default.qubit', wires=n)


def apply(circ, params=()):
    for g in circ:
        name, w = g['g'], g['w']
        ps = [ref.resolve(p, params) for p in g.get('p', [])]
        if name == 'BasisState':
            qml.BasisState(np.array(g['bits']), wires=w)
            continue
        if name == 'QubitStateVector':
            qml.QubitStateVector(ref.state_from_seed(g['seed'], len(w)), wires=w)
            continue
        if name == 'RawUnitary':
            qml.QubitUnitary(g['m'], wires=w)
            continue
        if name == 'PauliRot':
            op = qml.PauliRot(ps[0], g['word'], wires=w)
        elif name == 'QubitUnitary':
            op = qml.QubitUnitary(ref.gate_matrix({**g, 'inv': False}), wires=w)
        elif name == 'DiagonalQubitUnitary':
            op = qml.DiagonalQubitUnitary(np.diag(ref.gate_matrix({**g, 'inv': False})), wires=w)
        elif name == 'MultiControlledX':
            op = qml.MultiControlledX(control_wires=w[:-1], wires=w[-1], control_values=''.join(map(str, g['cv'])))
        elif name == 'ControlledQubitUnitary':
            k = int(''.join(map(str, g['cv'])), 2)
            u = ref.gate_matrix({**g, 'inv': False})[2 * k:2 * k + 2, 2 * k:2 * k + 2]
            op = qml.ControlledQubitUnitary(u, control_wires=w[:-1], wires=w[-1], control_values=''.join(map(str, g['cv'])))
        else:
            op = getattr(qml, name)(*ps, wires=w if len(w) > 1 else w[0])
        if g.get('inv'):
            op.inv()


def circuit_fn(circ, ret='state'):
    def circuit(params, **kwargs):
        apply(circ, params)
        if ret == 'state':
            return qml.state()
        if ret == 'expval':
            return qml.expval(qml.PauliZ(0))
    return circuit


_P = {'X': qml.PauliX, 'Y': qml.PauliY, 'Z': qml.PauliZ, 'I': qml.Identity}


def observable(o):
    if o[0] == 'herm':
        return qml.Hermitian((o[3] if len(o) > 3 else 1.0) * ref.herm(o[2], len(o[1])), wires=o[1])
    if o[0] == 'num':
        return qml.Hermitian(o[3] * ref.kron(*[ref.PAULI[c] for c in o[2]]), wires=o[1])
    word, w = o
    out = _P[word[0]](w[0])
    for c, q in zip(word[1:], w[1:]):
        out = out @ _P[c](q)
    return out


def observables(obs):
    out = [observable(o) for o in obs]
    if len(obs) % 2 == 0:               # equal entries may be one and the same object
        for i in range(len(obs)):
            out[i] = out[obs.index(obs[i])]
    return out


def run_state(circ, n, params=()):
    """State from the PennyLane simulator itself."""
    return np.asarray(qml.QNode(circuit_fn(circ), device(n))(params))
