"""Workload generators. Everything a case needs is in its JSON description."""
import itertools
import math

import numpy as np

from . import ref

SPECIAL = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, math.pi / 4, 1e-9, 1e-4, 3 * math.pi]


def angle(rng, special=0.25):
    if rng.random() < special:
        return float(SPECIAL[rng.integers(len(SPECIAL))])
    return float(np.round(rng.uniform(-2 * math.pi, 2 * math.pi), 6))


def wires(rng, n, k):
    return [int(x) for x in rng.permutation(n)[:k]]


def gate(rng, n, names=None):
    names = names or list(ref.GATES) + ['PauliRot', 'MultiRZ', 'QubitUnitary', 'DiagonalQubitUnitary']
    while True:
        name = names[rng.integers(len(names))]
        if name in ('QFT', 'MultiControlledX', 'ControlledQubitUnitary') or name in ref.EXTRA_GATES:
            if name in ref.EXTRA_GATES:
                k = ref.EXTRA_GATES[name][0]
            else:
                k = int(rng.integers(1 if name == 'QFT' else 2, 5))
            if k > n:
                continue
            g = {'g': name, 'w': wires(rng, n, k)}
            if name in ref.EXTRA_GATES:
                g['p'] = [angle(rng)]
            elif name != 'QFT':
                g['cv'] = [int(b) for b in rng.integers(0, 2, k - 1)]
                g['seed'] = int(rng.integers(1 << 30))
            return g
        if name in ('PauliRot', 'MultiRZ', 'QubitUnitary', 'DiagonalQubitUnitary'):
            k = int(rng.integers(1, min(n, 3) + 1))
            g = {'g': name, 'w': wires(rng, n, k)}
            if name == 'PauliRot':
                letters = 'XYZ' if rng.random() < 0.8 else 'IXYZ'
                g['word'] = ''.join(letters[rng.integers(len(letters))] for _ in range(k))
                if set(g['word']) == {'I'}:
                    g['word'] = 'X' * k
                g['p'] = [angle(rng)]
            elif name == 'MultiRZ':
                g['p'] = [angle(rng)]
            else:
                g['seed'] = int(rng.integers(1 << 30))
        else:
            k, np_, _ = ref.GATES[name]
            if k > n:
                continue
            g = {'g': name, 'w': wires(rng, n, k)}
            if np_:
                g['p'] = [angle(rng) for _ in range(np_)]
        return g


def circuit(rng, n, depth, names=None, inv=True, prep=False):
    out = []
    if prep:
        k = int(rng.integers(1, n + 1))
        if rng.random() < 0.5:
            out.append({'g': 'BasisState', 'w': wires(rng, n, k), 'bits': [int(b) for b in rng.integers(0, 2, k)]})
        else:
            out.append({'g': 'QubitStateVector', 'w': wires(rng, n, k), 'seed': int(rng.integers(1 << 30))})
    for _ in range(depth):
        g = gate(rng, n, names)
        if inv and rng.random() < 0.15:
            g['inv'] = True
        out.append(g)
    return out


def generic_circuit(rng, n, layers=2):
    """Entangling circuit with generic angles: all gradients typically non-zero."""
    out = []
    for _ in range(layers):
        for q in range(n):
            out.append({'g': 'Rot', 'w': [q], 'p': [float(np.round(rng.uniform(-3, 3), 6)) for _ in range(3)]})
        if n > 1:
            for q in rng.permutation(n - 1 if n == 2 else n):
                out.append({'g': 'CNOT', 'w': [int(q), int((q + 1) % n)]})
    for q in range(n):
        out.append({'g': 'Rot', 'w': [q], 'p': [float(np.round(rng.uniform(-3, 3), 6)) for _ in range(3)]})
    return out


def near_clifford(rng, n):
    """A Clifford state, slightly rotated: gradients of very different size side by side."""
    out = circuit(rng, n, int(rng.integers(1, 6)), ['Hadamard', 'PauliX', 'S', 'CNOT', 'CZ', 'PauliY', 'SX'])
    for q in range(n):
        s = 10.0 ** float(rng.uniform(-4, -1))
        out.append({'g': 'Rot', 'w': [q], 'p': [float(s * x) for x in rng.uniform(-1, 1, 3)]})
    return out


def any_circuit(rng, n):
    """Mix of start states: generic, Clifford/product (many stationary points), empty-ish, prepared."""
    r = rng.random()
    if rng.random() < 0.08:
        return near_clifford(rng, n)
    if r < 0.45:
        return generic_circuit(rng, n, int(rng.integers(1, 3)))
    if r < 0.60:
        return circuit(rng, n, int(rng.integers(1, 7)))
    if r < 0.72:
        return circuit(rng, n, int(rng.integers(1, 6)), ['Hadamard', 'PauliX', 'S', 'CNOT', 'CZ', 'PauliY', 'SX'])
    if r < 0.84:
        return [{'g': 'Hadamard', 'w': [q]} for q in range(n)] + [{'g': 'RZ', 'w': [q], 'p': [angle(rng)]} for q in range(n)]
    if r < 0.92:
        return circuit(rng, n, int(rng.integers(1, 4)), prep=True)
    return [{'g': 'RX', 'w': [int(rng.integers(n))], 'p': [angle(rng, 0.8)]}]


def observable(rng, n, maxk=3):
    k = int(rng.choice([1, 2, 3], p=[0.45, 0.4, 0.15]))
    k = min(k, n, maxk)
    if maxk >= 4 and n >= 4 and rng.random() < 0.08:
        k = int(rng.integers(4, min(n, maxk) + 1))
    word = ['XYZ'[rng.integers(3)] for _ in range(k)]
    if k > 1 and rng.random() < 0.06:
        word[rng.integers(k)] = 'I'                 # an identity factor inside a tensor observable; the wires are
        return [''.join(word), sorted(wires(rng, n, k))]    # sorted since PennyLane 0.15 measures it wrongly otherwise
    return [''.join(word), wires(rng, n, k)]


MODELS = ['tfim', 'heis', 'xxz', 'zz', 'single']


def model(name, n):
    bonds = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if n > 2 else [])
    if name == 'tfim':
        return [['ZZ', list(b)] for b in bonds] + [['X', [i]] for i in range(n)]
    if name == 'heis':
        return [[c * 2, list(b)] for b in bonds for c in 'XYZ']
    if name == 'xxz':
        return [[c * 2, list(b)] for b in bonds for c in 'XYZ'] + [['Z', [0]]]
    if name == 'zz':
        return [['ZZ', list(b)] for b in bonds] or [['Z', [0]]]
    return [['Z', [i]] for i in range(n)]


def observables(rng, n, lo=1, hi=5, maxk=3, models=0.3, herm=0.0):
    if rng.random() < models and n > 1:
        return model(MODELS[rng.integers(len(MODELS))], n)
    m = int(rng.integers(lo, hi + 1))
    if hi >= 3 and rng.random() < 0.06:
        m = int(rng.integers(hi + 1, 13))           # a long list
    obs = [observable(rng, n, maxk) for _ in range(m)]
    if m > 1 and rng.random() < 0.25:               # a repeated observable
        i, j = [int(x) for x in rng.permutation(m)[:2]]
        obs[i] = [obs[j][0], list(obs[j][1])]
    if hi > 1 and rng.random() < 0.15:              # the same letters on the same qubits, the other way round
        long = [o for o in obs if len(o[0]) > 1 and 'I' not in o[0]]
        if long:
            o = long[rng.integers(len(long))]
            obs.insert(int(rng.integers(len(obs) + 1)), [o[0], o[1][::-1]] if rng.random() < 0.5 else [o[0][::-1], list(o[1])])
    if rng.random() < herm:                         # an observable that is not a Pauli word
        i = int(rng.integers(len(obs)))
        obs[i] = ['herm', wires(rng, n, int(rng.integers(1, min(n, 2) + 1))), sub(rng)]
        if hi > 1 and rng.random() < 0.5:           # and another one on the same qubits
            obs.insert(int(rng.integers(len(obs) + 1)), ['herm', list(obs[i][1]), sub(rng)])
    return obs


def scaled(obs, s):
    """The same observables times s, as Hermitian matrices."""
    out = []
    for o in obs:
        if o[0] == 'herm':
            out.append(['herm', o[1], o[2], s])
        else:                   # sorted, since PennyLane 0.15 mixes up cyclic permutations of three wires
            pairs = sorted(zip(o[1], o[0]))
            out.append(['num', [w for w, _ in pairs], ''.join(c for _, c in pairs), s])
    return out


def eta(rng):
    r = rng.random()
    if r < 0.08:
        return 0.0
    if r < 0.16:
        return 1.0
    if r < 0.2:
        return 1e-6
    return float(np.round(rng.uniform(0.01, 1.0), 4))


def sub(rng):
    return int(rng.integers(1 << 31))
