"""Reference model: plain linear algebra written independently of oranssi (and of PennyLane's gates).

Convention: wire 0 is the most significant bit; the first wire of an operator is its first tensor
factor. Nothing in here imports the code under test.
"""
import cmath
import itertools
import math

import numpy as np

I2 = np.array([[1, 0], [0, 1]], dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PAULI = {'I': I2, 'X': PX, 'Y': PY, 'Z': PZ}


def kron(*ms):
    out = np.ones((1, 1), dtype=complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def embed(op, wires, n):
    """Full matrix of `op` on `wires`, assembled entry by entry from bit strings."""
    op = np.asarray(op, dtype=complex)
    k = len(wires)
    dim = 2 ** n
    out = np.zeros((dim, dim), dtype=complex)
    shifts = [n - 1 - w for w in wires]
    mask = 0
    for s in shifts:
        mask |= 1 << s
    scatter = []
    for a in range(2 ** k):
        v = 0
        for j, s in enumerate(shifts):
            if (a >> (k - 1 - j)) & 1:
                v |= 1 << s
        scatter.append(v)
    for col in range(dim):
        rest = col & ~mask
        b = 0
        for j, s in enumerate(shifts):
            b = (b << 1) | ((col >> s) & 1)
        rows = [rest | scatter[a] for a in range(2 ** k)]
        out[rows, col] = op[:, b]
    return out


_PW = {}


def pauli_word(word, wires, n):
    """Matrix of a Pauli word on given wires (cached; do not mutate)."""
    key = (word, tuple(int(w) for w in wires), n)
    if key not in _PW:
        facs = [I2] * n
        for c, w in zip(word, wires):
            facs[int(w)] = PAULI[c]
        _PW[key] = kron(*facs)
        if len(_PW) > 6000:
            _PW.clear()
            return pauli_word(word, wires, n)
    return _PW[key]


def expm_h(H, t):
    """exp(-i t H) for Hermitian H."""
    w, v = np.linalg.eigh(0.5 * (H + H.conj().T))
    return (v * np.exp(-1j * t * w)) @ v.conj().T


def rot(P, angle):
    """exp(-i angle/2 P) for involutory P."""
    return np.cos(angle / 2) * np.eye(P.shape[0]) - 1j * np.sin(angle / 2) * P


def comm(a, b):
    return a @ b - b @ a


def energy(U_or_psi, H):
    psi = U_or_psi if np.ndim(U_or_psi) == 1 else U_or_psi[:, 0]
    return float(np.real(psi.conj() @ (H @ psi)))


def grad_im(psi, P, H):
    """Im <psi|[P,H]|psi>."""
    a = H @ psi
    b = P @ psi
    return float(2 * np.imag(b.conj() @ a))


def haar(rng, dim, real=True):
    z = (rng.normal(size=(dim, dim)) + 1j * rng.normal(size=(dim, dim))) / np.sqrt(2)
    q, r = np.linalg.qr(z)
    d = np.diag(r)
    if real and int(abs(z[0, 0]) * 1e8) % 14 == 0:           # now and then a real one, as an array of floats
        q, r = np.linalg.qr(np.real(z))
        d = np.diag(r)
    return layout(q * (d / np.abs(d)))


def layout(U):
    """The same matrix in one of several memory layouts (chosen by its contents): row or column major, a view of a
    larger array, read-only."""
    k = int(abs(complex(U.flat[0])) * 1e9) % 8
    if k == 0:
        return np.asfortranarray(U)
    if k == 1:
        big = np.zeros((2 * U.shape[0], 3 * U.shape[1]), dtype=U.dtype)
        big[::2, ::3] = U
        return big[::2, ::3]
    if k == 2:
        U.flags.writeable = False
    return U


def unitary_err(U):
    return float(np.max(np.abs(U @ U.conj().T - np.eye(U.shape[0]))))


# ---------------------------------------------------------------- gates
def _rx(t): return rot(PX, t)
def _ry(t): return rot(PY, t)
def _rz(t): return rot(PZ, t)
def _rotg(a, b, c): return _rz(c) @ _ry(b) @ _rz(a)
def _ps(t): return np.diag([1, cmath.exp(1j * t)])
def _ctrl(u):
    k = u.shape[0]
    out = np.eye(2 * k, dtype=complex)
    out[k:, k:] = u
    return out


_SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
GATES = {
    'Hadamard': (1, 0, lambda: np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)),
    'PauliX': (1, 0, lambda: PX), 'PauliY': (1, 0, lambda: PY), 'PauliZ': (1, 0, lambda: PZ),
    'S': (1, 0, lambda: np.diag([1, 1j])), 'T': (1, 0, lambda: np.diag([1, cmath.exp(1j * math.pi / 4)])),
    'SX': (1, 0, lambda: 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]])),
    'CNOT': (2, 0, lambda: _ctrl(PX)), 'CZ': (2, 0, lambda: _ctrl(PZ)), 'CY': (2, 0, lambda: _ctrl(PY)),
    'SWAP': (2, 0, lambda: _SWAP), 'Toffoli': (3, 0, lambda: _ctrl(_ctrl(PX))), 'CSWAP': (3, 0, lambda: _ctrl(_SWAP)),
    'RX': (1, 1, _rx), 'RY': (1, 1, _ry), 'RZ': (1, 1, _rz), 'Rot': (1, 3, _rotg), 'PhaseShift': (1, 1, _ps),
    'ControlledPhaseShift': (2, 1, lambda t: _ctrl(_ps(t))),
    'CRX': (2, 1, lambda t: _ctrl(_rx(t))), 'CRY': (2, 1, lambda t: _ctrl(_ry(t))), 'CRZ': (2, 1, lambda t: _ctrl(_rz(t))),
    'CRot': (2, 3, lambda a, b, c: _ctrl(_rotg(a, b, c))),
    'U1': (1, 1, _ps),
    'U2': (1, 2, lambda p, l: np.array([[1, -cmath.exp(1j * l)], [cmath.exp(1j * p), cmath.exp(1j * (p + l))]]) / math.sqrt(2)),
    'U3': (1, 3, lambda t, p, l: np.array([[math.cos(t / 2), -cmath.exp(1j * l) * math.sin(t / 2)],
                                            [cmath.exp(1j * p) * math.sin(t / 2), cmath.exp(1j * (p + l)) * math.cos(t / 2)]])),
}


def _givens(i, j, dim, ph=0):
    def f(t):
        m = np.eye(dim, dtype=complex) * cmath.exp(1j * ph * t / 2)
        c, sn = math.cos(t / 2), math.sin(t / 2)
        m[i, i] = m[j, j] = c
        m[i, j], m[j, i] = -sn, sn
        return m
    return f


# gates only used by the extraction check
EXTRA_GATES = {
    'SingleExcitation': (2, 1, _givens(1, 2, 4)), 'SingleExcitationPlus': (2, 1, _givens(1, 2, 4, 1)), 'SingleExcitationMinus': (2, 1, _givens(1, 2, 4, -1)),
    'DoubleExcitation': (4, 1, _givens(3, 12, 16)),      # the Plus/Minus variants are single precision in PennyLane
}
DIFF_GATES = ['RX', 'RY', 'RZ', 'Rot', 'CRX', 'CRY', 'CRZ', 'PhaseShift', 'PauliRot', 'MultiRZ']


def resolve(p, params):
    """A gate parameter is a number or {"i": index path, "c": scale, "o": offset} into `params`."""
    if isinstance(p, dict):
        v = params
        for i in p['i']:
            v = v[i]
        return p.get('c', 1.0) * v + p.get('o', 0.0)
    return p


def gate_matrix(g, params=()):
    ps = [resolve(p, params) for p in g.get('p', [])]
    name = g['g']
    if name == 'PauliRot':
        m = rot(kron(*[PAULI[c] for c in g['word']]), ps[0])
    elif name == 'MultiRZ':
        m = rot(kron(*[PZ] * len(g['w'])), ps[0])
    elif name == 'QubitUnitary':
        m = haar(np.random.default_rng(g['seed']), 2 ** len(g['w']))
    elif name == 'RawUnitary':
        m = g['m']
    elif name == 'QFT':
        d = 2 ** len(g['w'])
        m = np.array([[cmath.exp(2j * math.pi * a * b / d) for b in range(d)] for a in range(d)]) / math.sqrt(d)
    elif name in ('MultiControlledX', 'ControlledQubitUnitary'):
        d = 2 ** len(g['w'])
        k = int(''.join(map(str, g['cv'])), 2)
        m = np.eye(d, dtype=complex)
        m[2 * k:2 * k + 2, 2 * k:2 * k + 2] = PX if name == 'MultiControlledX' else haar(np.random.default_rng(g['seed']), 2)
    elif name in EXTRA_GATES:
        m = EXTRA_GATES[name][2](*ps)
    elif name == 'DiagonalQubitUnitary':
        m = np.diag(np.exp(1j * np.random.default_rng(g['seed']).uniform(0, 6, 2 ** len(g['w']))))
    else:
        m = GATES[name][2](*ps)
    m = np.asarray(m, dtype=complex)
    return m.conj().T if g.get('inv') else m


def state_from_seed(seed, k):
    r = np.random.default_rng(seed)
    v = r.normal(size=2 ** k) + 1j * r.normal(size=2 ** k)
    return v / np.linalg.norm(v)


def apply_gate(psi, m, wires, n):
    """Apply m to a state (or a matrix of columns) by tensor transposition."""
    k = len(wires)
    cols = 1 if psi.ndim == 1 else psi.shape[1]
    t = psi.reshape([2] * n + [cols])
    rest = [i for i in range(n) if i not in wires]
    order = list(wires) + rest + [n]
    t = np.transpose(t, order)
    shp = t.shape
    t = m @ t.reshape(2 ** k, -1)
    t = np.transpose(t.reshape(shp), np.argsort(order))
    return t.reshape(psi.shape)


def sim(circ, n, params=()):
    """State prepared by a circuit description on |0...0>."""
    psi = np.zeros(2 ** n, dtype=complex)
    psi[0] = 1
    for g in circ:
        if g['g'] == 'BasisState':
            for b, w in zip(g['bits'], g['w']):
                if b:
                    psi = apply_gate(psi, PX, [w], n)
        elif g['g'] == 'QubitStateVector':
            v = state_from_seed(g['seed'], len(g['w']))
            m = np.zeros((len(v), len(v)), dtype=complex)
            m[:, 0] = v
            psi = apply_gate(psi, m, g['w'], n)
        else:
            psi = apply_gate(psi, gate_matrix(g, params), g['w'], n)
    return psi


def unitary(circ, n, params=()):
    U = np.eye(2 ** n, dtype=complex)
    for g in circ:
        U = apply_gate(U, gate_matrix(g, params), g['w'], n)
    if len(circ) % 2 == 0 and not U.imag.any():     # an array of floats
        U = np.array(U.real)
    return U


# ---------------------------------------------------------------- observables: [word, wires], ['herm', wires, seed(, scale)]
# or ['num', wires, word, scale] (a multiple of a Pauli word, as a Hermitian matrix)
def herm(seed, k):
    r = np.random.default_rng(seed)
    a = r.normal(size=(2 ** k, 2 ** k)) + 1j * r.normal(size=(2 ** k, 2 ** k))
    return (a + a.conj().T) / 2 / 2 ** (k / 2)


def obs_matrix(o, n):
    if o[0] == 'herm':
        return (o[3] if len(o) > 3 else 1.0) * embed(herm(o[2], len(o[1])), o[1], n)
    if o[0] == 'num':
        return o[3] * pauli_word(o[2], o[1], n)
    return pauli_word(o[0], o[1], n)


def ham(obs, n, coeffs=None):
    H = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for i, o in enumerate(obs):
        H += (1.0 if coeffs is None else coeffs[i]) * obs_matrix(o, n)
    return H


def words(n, letters='IXYZ'):
    return [''.join(c) for c in itertools.product(letters, repeat=n)]


def local_words(n, ks=(1, 2)):
    """(word, qubits) for all words without identity on increasing qubit sets of the sizes ks."""
    return [(w, q) for k in ks if k <= n for w in words(k, 'XYZ') for q in itertools.combinations(range(n), k)]


def pauli_coeffs(V, n, ks):
    """Coefficient tr(P V)/2^n of each local word."""
    d = 2 ** n
    return {(w, q): np.sum(pauli_word(w, q, n).conj() * V) / d for w, q in local_words(n, ks)}


def single_rotation(V, n, ks, tol=1e-7):
    """Decompose V = c - i s P with one local word P. Returns ((word, qubits), angle) with
    V = exp(-i angle/2 P), (None, 0.0) for the identity, or None if V has another form."""
    d = 2 ** n
    c = np.trace(V) / d
    if np.max(np.abs(V - np.eye(d))) < tol:
        return (None, 0.0)
    co = pauli_coeffs(V, n, ks)
    key = max(co, key=lambda k: abs(co[k]))
    s = 1j * co[key]
    P = pauli_word(key[0], key[1], n)
    if abs(c.imag) > tol or abs(s.imag) > tol:
        return None
    if np.max(np.abs(V - (c.real * np.eye(d) - 1j * s.real * P))) > tol:
        return None
    return key, 2 * math.atan2(s.real, c.real)


# ---------------------------------------------------------------- one-step models
def exact_step(psi, obs, n, eta):
    for o in obs:
        O = obs_matrix(o, n)
        rho = np.outer(psi, psi.conj())
        K = 1j * comm(rho, O)           # Hermitian; exp(eta/2 [rho,O]) = exp(-i eta/2 K)
        psi = expm_h(K, eta / 2) @ psi
    return psi


def exact_step_unitary(U, obs, n, eta):
    for o in obs:
        O = obs_matrix(o, n)
        psi = U[:, 0]
        rho = np.outer(psi, psi.conj())
        U = expm_h(1j * comm(rho, O), eta / 2) @ U
    return U


def local_step(U, obs, n, eta, locality, directions, trotter):
    psi = U[:, 0]
    subsets = list(itertools.combinations(range(n), locality))
    for o in obs:
        O = obs_matrix(o, n)
        for q in subsets:
            gens = [pauli_word(d, q, n) for d in directions]
            U = _grad_factor(U, psi, gens, O, n, eta, trotter)
    return U


def custom_step(U, obs, n, eta, labels, trotter):
    psi = U[:, 0]
    gens = [pauli_word(w, q, n) for w, q in labels]
    for o in obs:
        U = _grad_factor(U, psi, gens, obs_matrix(o, n), n, eta, trotter)
    return U


def _grad_factor(U, psi, gens, O, n, eta, trotter):
    # <[P,O]> = i w ;  exp(-(eta/2^n) i w P) = exp(-i (eta w / 2^n) P)
    ws = [grad_im(psi, P, O) for P in gens]
    if trotter:
        for w, P in zip(ws, gens):
            U = rot(P, 2 * eta * w / 2 ** n) @ U
        return U
    K = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for w, P in zip(ws, gens):
        K += w * P
    return expm_h(K, eta / 2 ** n) @ U


def line_min(psi, P, H):
    """Global minimum over theta of E(exp(-i theta/2 P) psi) = a + b cos + c sin."""
    a0 = energy(psi, H)
    ap = energy(rot(P, math.pi) @ psi, H)
    a = (a0 + ap) / 2
    b = (a0 - ap) / 2
    c = energy(rot(P, math.pi / 2) @ psi, H) - a
    return a - math.hypot(b, c)
