import numpy as np
from .. import ref, gen, build
from ..mon import snap
from .common import flags, floats
from oranssi import opt_tools, optimizers

RULE = ('one evaluation = one growth step: the optimizer handed to the layer is a monitor that records the starting '
        'parameters and (in most cases) answers with arbitrary parameters, after which the returned unitary is compared with '
        'the reference ansatz for every admissible new layer; distinct = (n, observables, sequence of layers); non-trivial '
        'when the ansatz has at least one generic angle.')
NEED = {'ansatz': 150, 'choice': 150, 'start': 150, 'purity': 150, 'returned': 150, 'real': 6, 'optimizer': 4}
CAND = [(a, 'single') for a in 'XYZ'] + [(w, p) for w in ref.words(2, 'XYZ') for p in ('even', 'odd')]


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(600 if big else 90):
        n = int(rng.choice([2, 3, 4, 5], p=[0.25, 0.35, 0.3, 0.1]))
        out.append({'kind': 'stub', 'n': n, 'obs': gen.observables(rng, n, 1, 6), 'calls': 2 if n == 5 else int(rng.choice([4, 8], p=[0.8, 0.2])) if n > 2 or rng.random() < 0.8 else 16, 'follow': bool(rng.random() < 0.6),
                    'start': ['haar', 'plus', 'circ'][rng.choice(3, p=[0.6, 0.2, 0.2])], 'circ': gen.circuit(rng, n, 5), 'seed': gen.sub(rng)})
    for i in range(30 if big else 6):
        n = 6 + (i == 5)
        out.append({'kind': 'stub', 'n': n, 'obs': gen.observables(rng, n, 2, 6, models=0.5), 'calls': 2 if n == 6 else 1, 'follow': False, 'start': 'haar', 'circ': [], 'seed': gen.sub(rng)})
    for _ in range(60 if big else 10):
        n = int(rng.choice([2, 3]))
        out.append({'kind': 'real', 'n': n, 'obs': gen.observables(rng, n, 1, 3), 'calls': 2 if n == 3 else 3, 'seed': gen.sub(rng)})
    for _ in range(40 if big else 8):
        n = int(rng.choice([2, 3]))
        out.append({'kind': 'opt', 'n': n, 'obs': gen.observables(rng, n, 1, 3), 'circ': gen.any_circuit(rng, n), 'nsteps': 2, 'seed': gen.sub(rng)})
    return out


def bonds(pattern, n):
    even = [(i, i + 1) for i in range(0, n - 1, 2)]
    odd = [(i, i + 1) for i in range(1, n - 1, 2)]
    return even if pattern == 'even' else odd + [(0, n - 1)]


def layer_gates(layer, angles, n):
    w, pat = layer
    if pat == 'single':
        return [{'g': 'R' + w, 'w': [q], 'p': [float(angles[q])]} for q in range(n)]
    bs = bonds(pat, n)
    idx = list(range(len(bs)))
    if pat == 'odd':
        idx[-1] = -1
    return [{'g': 'PauliRot', 'word': w, 'w': list(b), 'p': [float(angles[i])]} for b, i in zip(bs, idx)]


def ansatz(layers, params, n):
    circ = [{'g': 'Hadamard', 'w': [q]} for q in range(n)]
    for l, p in zip(layers, params):
        circ += layer_gates(l, p, n)
    return ref.unitary(circ, n)


def score(psi, layer, H, n):
    w, pat = layer
    qs = [(q,) for q in range(n)] if pat == 'single' else bonds(pat, n)
    return sum(abs(ref.grad_im(psi, ref.pauli_word(w, q, n), H)) for q in qs)


def grow(m, U, V, layers, params, H, n):
    """Which layer did the step append? Judged from the returned unitary and parameters alone."""
    psi = U[:, 0]
    prev = layers[-1][0] if layers else None
    sc = {l: score(psi, l, H, n) for l in CAND if l[0] != prev}
    top = max(sc.values())
    adm = [l for l, v in sc.items() if v >= top - 1e-7]
    head = [l for l in CAND if np.max(np.abs(ansatz(layers + [l], params, n) - V)) < 1e-8]
    m.check(len(head) > 0, 'the unitary is not the grown ansatz (one more layer) at the returned parameters', 'ansatz', stop=True, layers=layers, params=params)
    good = [l for l in head if l in adm]
    m.check(len(good) > 0, 'the new layer %s does not have the largest summed gradient' % (head[0],), 'choice', stop=True, best=adm[0], best_score=top, score=sc.get(head[0], 'previous direction repeated'))
    return good[0]


def run(case, m):
    n = case['n']
    d = 2 ** n
    rng = np.random.default_rng(case['seed'])
    H = ref.ham(case['obs'], n)
    obs = build.observables(case['obs'])
    dev = build.device(n)
    if case['kind'] == 'opt':
        L = opt_tools.AdaptVQELayer(dev, obs, **flags(case['seed']))
        start = []
        r = m.call('optimizer with adaptive layer', optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), start, obs, dev, layers=[L], nsteps=case['nsteps'], return_unitary=True)
        m.check(start == [], 'the parameter list of the caller was modified', 'purity')
        for c, u in zip(r[0], r[1]):
            m.close(float(c), ref.energy(np.asarray(u), H), 'reported energy is not the energy of the ansatz', 1e-8, 'optimizer')
        m.key('opt', n, case['obs'])
        return
    log = {}

    def monitor(circuit, params, observables, device, **kw):
        log['start'] = [[float(x) for x in p] for p in params]
        log['obs'] = snap(list(observables))
        if case['kind'] == 'real':
            res = optimizers.parameter_shift_optimizer(circuit, params, observables, device, **kw)
            log['cost'] = float(res[0][-1])
            log['first'] = float(res[0][0])
            log['end'] = np.array(res[1][-1], dtype=float)
            return res
        end = rng.uniform(-3, 3, size=(len(params), n))
        log['end'] = end.copy()
        return [0.0, 0.0], [np.array(params, dtype=float), end]

    L = m.call('constructing', opt_tools.AdaptVQELayer, dev, obs, **flags(case['seed']))
    if case['kind'] == 'real' or case['start'] == 'haar':
        U = ref.haar(rng, d)
    elif case['start'] == 'plus':
        U = ref.unitary([{'g': 'Hadamard', 'w': [q]} for q in range(n)], n)
    else:
        U = ref.unitary(case['circ'], n)
    params, layers = [], []
    for c in range(case['calls']):
        keep, keepp = snap(U), snap(params)
        r = m.call('adaptive step', L, U, params=params, optimizer=monitor)
        m.check(isinstance(r, tuple) and len(r) == 2, 'unitary and parameters are returned', 'returned', stop=True)
        V, newp = np.asarray(r[0]), r[1]
        m.check(snap(params) == keepp and snap(U) == keep, 'the parameter list or unitary of the caller was modified', 'purity')
        want = [list(map(float, p)) for p in params] + [[0.1] * n]
        m.close(np.array(log['start']), np.array(want), 'optimisation does not start from the previous parameters plus new ones at 0.1', 1e-12, 'start', stop=True)
        m.check(log['obs'] == snap(obs), 'another observable list is optimised', 'start')
        m.close(np.array(newp, dtype=float), log['end'], 'returned parameters are not the optimised ones', 1e-12, 'returned', stop=True)
        new = grow(m, U, V, layers, log['end'], H, n)
        layers.append(new)
        if case['kind'] == 'real':
            m.close(ref.energy(V, H), log['cost'], 'energy of the ansatz is not the optimised cost', 1e-8, 'real')
            m.close(ref.energy(ansatz(layers, log['start'], n), H), log['first'], 'cost at the starting parameters', 1e-8, 'real')
        params = newp
        if case['seed'] % 3 == 0 and c % 2:         # the caller is free to continue from other parameters
            params = [[float(x) for x in rng.uniform(-2, 2, n)] for _ in newp]
        U = V if case.get('follow', True) else ref.haar(rng, d)
        m.key(n, case['obs'], layers)
    m.sample(n=n, obs=case['obs'], layers=[str(l) for l in layers], energy=ref.energy(V, H))
