import itertools
import numpy as np
import pennylane as qml
from .. import ref, gen, build
from ..mon import snap
from .common import flags, floats, make_layer
from oranssi import opt_tools, optimizers, circuit_tools

RULE = ('one evaluation = one layer application whose left factor is decomposed into a Pauli rotation, the word compared '
        'with the argmax of the reference gradients, the energy with the analytic minimum along the curve; distinct = '
        '(layer, options, n, observables, word); non-trivial when the step lowers the energy by more than 1e-9 or starts '
        'at a stationary state.')
NEED = {'direction': 500, 'minimum': 600, 'descent': 600, 'repeat': 150, 'stationary': 40, 'rotosolve': 100, 'trajectory': 20, 'again': 50, 'twin': 60}


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(2500 if big else 260):
        layer = ['squared', 'su8', 'zass'][rng.integers(3)]
        n = int(rng.choice([1, 2, 3, 4, 5], p=[0.2, 0.36, 0.3, 0.1, 0.04])) if layer == 'squared' else int(rng.choice([3, 4, 5], p=[0.8, 0.17, 0.03]))
        opts = {}
        if layer == 'su8':
            opts = {'add_su2': bool(rng.random() < 0.6), 'add_su4': bool(rng.random() < 0.6)}
        if layer == 'zass':
            opts = {'add_su2': bool(rng.random() < 0.5), 'add_su4': bool(rng.random() < 0.5)}
        out.append({'kind': 'layer', 'layer': layer, 'opts': opts, 'n': n, 'obs': gen.observables(rng, n, 1, 6, maxk=n, herm=0.08), 'calls': int(rng.integers(3, 8)) if n > 3 or rng.random() < (0.8 if n < 3 else 0.93) else int(rng.integers(8, 40)), 'seteta': bool(rng.random() < 0.3),
                    'start': ['haar', 'circ', 'eigen', 'basis', 'near'][rng.choice(5, p=[0.42, 0.17, 0.13, 0.13, 0.15])], 'circ': gen.circuit(rng, n, 4), 'fresh': bool(rng.random() < 0.4), 'eta': gen.eta(rng), 'seed': gen.sub(rng)})
    for _ in range(1500 if big else 200):
        n = int(rng.choice([1, 2, 3, 4]))
        k = int(rng.integers(1, n + 1))
        out.append({'kind': 'roto', 'n': n, 'obs': gen.observables(rng, n, 1, 5, maxk=n, herm=0.08), 'word': ''.join('XYZ'[rng.integers(3)] for _ in range(k)), 'w': gen.wires(rng, n, k), 'start': 'haar' if rng.random() < 0.7 else 'basis', 'seed': gen.sub(rng)})
    for c in out:
        c['twin'] = bool(c['kind'] == 'layer' and rng.random() < 0.3)
        c['scale'] = 1.0
        if rng.random() < 0.15:              # observables far from unit size: nothing in the layer may depend on their scale
            c['scale'] = float(rng.choice([1e-6, 1e-4, 1e-2, 1e2, 1e4]))
            c['obs'] = gen.scaled(c['obs'], c['scale'])
    for _ in range(200 if big else 30):
        layer = ['squared', 'su8'][rng.integers(2)]
        n = 3 if layer == 'su8' else int(rng.choice([2, 3]))
        out.append({'kind': 'run', 'layer': layer, 'n': n, 'obs': gen.observables(rng, n, 1, 6, herm=0.08), 'circ': gen.any_circuit(rng, n), 'nsteps': int(rng.integers(3, 20)) if n == 3 else int(rng.integers(3, 50)), 'seed': gen.sub(rng)})
    return out


def start(case, rng, H, n):
    d = 2 ** n
    s = case['start']
    if s == 'haar':
        return ref.haar(rng, d)
    if s == 'circ':
        return ref.unitary(case['circ'], n)
    if s == 'basis':
        U = np.eye(d, dtype=complex)[:, rng.permutation(d)]
        return U
    w, v = np.linalg.eigh(H)
    Z = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    Z[:, 0] = v[:, rng.integers(d)]
    if s == 'near':             # a stationary state, slightly perturbed: small but non-zero gradients
        Z[:, 0] = Z[:, 0] + 10 ** rng.uniform(-5, -2) * ref.haar(rng, d)[:, 0]
    U, _ = np.linalg.qr(Z)
    return U


def run(case, m):
    n = case['n']
    d = 2 ** n
    rng = np.random.default_rng(case['seed'])
    H = ref.ham(case['obs'], n)
    obs = build.observables(case['obs'])
    dev = build.device(n)
    z = case.get('scale', 1.0)
    if case['kind'] == 'roto':
        U = start(case, rng, H, n)
        P = ref.pauli_word(case['word'], case['w'], n)
        q = qml.QNode(circuit_tools.circuit_observable_from_unitary, dev)
        keep = snap(U)
        V, th = m.call('rotosolve', opt_tools.rotosolve, P.copy(), obs, q, U, len(case['word']))
        V = np.asarray(V)
        m.close(V, ref.rot(P, float(th)) @ U, 'rotosolve angle does not reproduce its unitary', 1e-8, 'rotosolve')
        m.close(ref.energy(V, H), ref.line_min(U[:, 0], P, H), 'rotosolve misses the minimum along the curve', 1e-8 * z, 'rotosolve', word=case['word'], wires=case['w'])
        m.check(snap(U) == keep, 'rotosolve modified its input', 'purity')
        m.key('roto', n, case['word'], case['w'], case['obs'])
        return
    if case['kind'] == 'run':
        L = make_layer(case['layer'], dev, obs)
        costs, us = m.call('run', optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, layers=[L], nsteps=case['nsteps'], tol=None, return_unitary=True)
        costs = floats(costs)
        lo = np.linalg.eigvalsh(H)[0]
        for k in range(len(costs) - 1):
            m.check(lo - 1e-8 <= costs[k + 1] <= costs[k] + 1e-8, 'energy increases at step %d' % k, 'trajectory', costs=costs)
        return
    name, opts = case['layer'], case['opts']
    if name == 'squared':
        ks = (1, 2)
    elif name == 'su8':
        ks = tuple(k for k, f in ((1, opts['add_su2']), (2, opts['add_su4']), (3, True)) if f)
    else:
        ks = (1, 2) if opts['add_su2'] else (2,)
    kw = dict(opts)
    if name == 'zass':
        kw['ratio'] = (10 ** 6, 1)
    kw = dict(kw, **flags(case['seed']))
    L = m.call('constructing ' + name, make_layer, name, dev, obs, case['eta'], **kw)
    words = ref.local_words(n, ks)
    twin = m.call('constructing ' + name, make_layer, name, dev, obs, case['eta'], **kw) if case.get('twin') else None
    U = start(case, rng, H, n)
    prev = None             # set of words the previous step may have used
    for c in range(case['calls']):
        if case['seteta'] and c:
            m.call('set_eta', L.set_eta, gen.eta(rng))       # the step size must not matter here
        psi = U[:, 0]
        e0 = ref.energy(psi, H)
        g = {k: abs(ref.grad_im(psi, ref.pauli_word(k[0], k[1], n), H)) for k in words}
        keep = snap(U)
        if twin is not None and rng.random() < 0.6:      # another layer of the same kind, used in between
            m.call('applying another ' + name, twin, U)
            m.event('twin')
        V = np.asarray(m.call('applying ' + name, L, U))
        m.check(snap(U) == keep, 'the layer modified its input', 'purity')
        m.check(V.shape == U.shape, 'shape', 'direction', stop=True)
        e1 = ref.energy(V, H)
        m.check(e1 <= e0 + 1e-8 * z, '%s raises the energy from %.10g to %.10g' % (name, e0, e1), 'descent', stop=True)
        F = V @ U.conj().T
        r = ref.single_rotation(F, n, ks, 1e-7)
        m.check(r is not None, '%s does not apply a rotation about one allowed Pauli word' % name, 'direction', stop=True)
        excl = prev if (name == 'squared' and prev is not None) else set()
        cand = {k: v for k, v in g.items() if k not in excl}
        top = max(cand.values()) if cand else 0.0
        if r[0] is not None and abs(np.sin(r[1] / 2)) < 1e-7:
            r = (None, 0.0)
        if r[0] is None:
            best = {k for k, v in g.items() if v >= top - 1e-6 * z}
            m.check(any(abs(ref.line_min(psi, ref.pauli_word(k[0], k[1], n), H) - e0) < 1e-8 * z for k in best), '%s stands still away from a minimum' % name, 'minimum', stop=True)
            prev = best
            m.event('stationary')
        else:
            k = r[0]
            m.check(g[k] >= top - 1e-7 * z, '%s moves along %s although another allowed word has a larger gradient' % (name, k), 'direction', stop=True, chosen=g[k], best=top)
            if name == 'squared' and prev is not None and len(prev) == 1:
                m.check(k not in prev, 'the word of the previous step was used again', 'repeat', stop=True, word=str(k))
            m.close(e1, ref.line_min(psi, ref.pauli_word(k[0], k[1], n), H), '%s misses the minimum along %s' % (name, k), 1e-8 * z, 'minimum', stop=True)
            prev = {k}
            if top < 1e-9 * z:
                m.event('stationary')
            m.key(name, sorted(opts.items()), n, case['obs'], k)
        if case['fresh'] and c % 2 == 0:
            U = ref.haar(rng, d)
        elif rng.random() < 0.3:
            m.event('again')        # same entry state again: its best word is now the previous word
        else:
            U = V
    m.sample(layer=name, n=n, obs=case['obs'], e0=e0, e1=e1, word=str(r[0]))
