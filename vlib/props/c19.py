import numpy as np
from .. import ref, gen, build
from ..mon import snap
from .common import floats
from oranssi import optimizers

RULE = ('one evaluation = one step of a recorded run compared with p - eta*grad E(p), the gradient being obtained by '
        'five-point differences of the reference simulator, or one cost/state compared with the reference at the recorded '
        'parameters; distinct = (circuit, structure, observables, eta); non-trivial when the gradient norm exceeds 1e-6.')
NEED = {'step': 250, 'cost': 300, 'state': 300, 'start': 80}


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(1200 if big else 150):
        n = int(rng.choice([1, 2, 3, 4, 5], p=[0.25, 0.35, 0.28, 0.1, 0.02]))
        shape = ['flat', 'nested', 'one'][rng.choice(3, p=[0.5, 0.4, 0.1])]
        if shape == 'flat':
            paths = [[i] for i in range(int(rng.integers(1, 6)) if rng.random() < 0.85 else int(rng.integers(6, 15)))]
        elif shape == 'nested':
            a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            paths = [[i, j] for i in range(a) for j in range(b)]
        else:
            paths = [[0]]
        circ = []
        for p in paths:
            circ.append(pgate(rng, n, p))
        for _ in range(int(rng.integers(0, 5))):
            if rng.random() < 0.5:
                circ.append(pgate(rng, n, paths[rng.integers(len(paths))]))       # shared parameter
            else:
                circ.append(gen.gate(rng, n, ['Hadamard', 'CNOT', 'CZ', 'S', 'T', 'PauliX', 'RX', 'RY', 'Rot']))
        if len(circ) > 1 and rng.random() < 0.2:
            circ.pop(0)                                                           # an unused parameter
        perm = rng.permutation(len(circ))
        circ = [circ[i] for i in perm]
        if not any(isinstance(p, dict) for g in circ for p in g.get('p', [])):
            circ.append(pgate(rng, n, paths[0]))
        vals = {tuple(p): float(np.round(rng.uniform(-3, 3), 5)) if rng.random() < 0.85 else float([0.0, np.pi, np.pi / 2][rng.integers(3)]) for p in paths}
        if rng.random() < 0.25:                                                   # outside the principal branch
            vals = {k: float(np.round(v + rng.uniform(-15, 15), 5)) for k, v in vals.items()}
        out.append({'n': n, 'shape': shape, 'paths': paths, 'vals': [vals[tuple(p)] for p in paths], 'circ': circ, 'obs': gen.observables(rng, n, 1, 5, maxk=n), 'eta': gen.eta(rng),
                    'nsteps': int(rng.integers(1, 7)) if rng.random() < 0.85 else int(rng.integers(7, 22)), 'seed': gen.sub(rng)})
        if n <= 2 and len(paths) <= 3 and rng.random() < 0.2:                     # a long run
            out[-1]['nsteps'] = int(rng.integers(30, 75))
            out[-1]['eta'] = float(np.round(rng.uniform(0.01, 0.06), 4))
    return out


def pgate(rng, n, path):
    ref_ = {'i': path}
    if rng.random() < 0.3:
        ref_['c'] = float(np.round(rng.uniform(-2, 2), 2)) or 1.0
    if rng.random() < 0.15:
        ref_['o'] = 0.3
    name = ['RX', 'RY', 'RZ', 'PhaseShift', 'PauliRot', 'CRX', 'CRY', 'CRZ', 'MultiRZ', 'Rot'][rng.choice(10, p=[.2, .2, .15, .05, .15, .05, .05, .05, .05, .05])]
    if n == 1 and name.startswith('CR'):
        name = 'RX'
    if name == 'PauliRot':
        k = int(rng.integers(1, min(n, 3) + 1))
        return {'g': name, 'word': ''.join('XYZ'[rng.integers(3)] for _ in range(k)), 'w': gen.wires(rng, n, k), 'p': [ref_]}
    if name == 'MultiRZ':
        return {'g': name, 'w': gen.wires(rng, n, min(n, 2)), 'p': [ref_]}
    if name == 'Rot':
        ps = [0.2, -0.4, 0.7]
        ps[int(rng.integers(3))] = ref_
        return {'g': name, 'w': gen.wires(rng, n, 1), 'p': ps}
    return {'g': name, 'w': gen.wires(rng, n, 2 if name.startswith('CR') else 1), 'p': [ref_]}


def pack(paths, vals):
    if len(paths[0]) == 1:
        return list(vals)
    out = []
    for p, v in zip(paths, vals):
        while len(out) <= p[0]:
            out.append([])
        out[p[0]].append(v)
    return out


def unpack(p):
    out = []
    for x in p:
        out += unpack(x) if np.ndim(x) > 0 else [float(x)]
    return out


def run(case, m):
    n, eta = case['n'], case['eta']
    H = ref.ham(case['obs'], n)

    def psi(v):
        return ref.sim(case['circ'], n, pack(case['paths'], v))

    def grad(v):
        h = 2e-3
        g = []
        for i in range(len(v)):
            e = []
            for s in (-2, -1, 1, 2):
                w = list(v)
                w[i] += s * h
                e.append(ref.energy(psi(w), H))
            g.append((e[0] - 8 * e[1] + 8 * e[2] - e[3]) / (12 * h))
        return np.array(g)

    params = pack(case['paths'], case['vals'])
    keep = snap(params)
    r = m.call('parameter-shift optimizer', optimizers.parameter_shift_optimizer, build.circuit_fn(case['circ'], None), params, build.observables(case['obs']), build.device(n),
               nsteps=case['nsteps'], eta=eta, tol=0.0, return_state=True, return_params=True)
    m.check(snap(params) == keep, 'the parameters of the caller were modified', 'start')
    m.check(isinstance(r, tuple) and len(r) == 3, 'costs, states, parameters', 'start', stop=True)
    costs, states, ps = floats(r[0]), r[1], [unpack(p) for p in r[2]]
    m.check(len(costs) == len(states) == len(ps) >= 2, 'lengths', 'start', stop=True)
    m.close(ps[0], case['vals'], 'first recorded parameters', 1e-12, 'start', stop=True)
    for k, p in enumerate(ps):
        m.close(costs[k], ref.energy(psi(p), H), 'cost %d' % k, 1e-8, 'cost', stop=True)
        m.close(np.asarray(states[k]), psi(p), 'state %d' % k, 1e-8, 'state', stop=True)
        if k + 1 < len(ps):
            g = grad(p)
            m.close(ps[k + 1], np.array(p) - eta * g, 'step %d is not a gradient-descent step' % k, 1e-7, 'step', stop=True, gradient=g, eta=eta)
            if np.linalg.norm(g) > 1e-6:
                m.key(case['shape'], n, case['circ'], case['obs'], eta)
    m.sample(n=n, shape=case['shape'], params=params, costs=costs)
