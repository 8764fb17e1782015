import random
import numpy as np
from .. import ref, gen, build
from ..mon import snap
from .common import flags, floats
from oranssi import opt_tools, optimizers

RULE = ('one evaluation = one commuting-mode step whose reported gate list is checked for disjointness, near-maximal '
        'gradient, energy and exact reproduction of the new unitary; distinct = (n, observables, word, qubit sets); '
        'non-trivial when at least one gate has a non-zero angle.')
NEED = {'gates': 60, 'disjoint': 60, 'gradient': 60, 'product': 60, 'energy': 60, 'optimizer': 10, 'overlap': 20, 'distinct_angles': 15}


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(600 if big else 70):
        n = int(rng.choice([1, 2, 3, 4, 5], p=[0.1, 0.3, 0.33, 0.24, 0.03]))
        sym = rng.random() < 0.6
        out.append({'kind': 'layer', 'n': n, 'obs': gen.model(gen.MODELS[rng.integers(4)], n) if sym and n > 1 else gen.observables(rng, n, 1, 5),
                    'start': ['plus', 'zero', 'haar', 'ry', 'circ'][rng.choice(5, p=[0.15, 0.1, 0.3, 0.3, 0.15])], 'circ': gen.circuit(rng, n, 4),
                    'ang': float(np.round(rng.uniform(-3, 3), 3)), 'ax': 'XYZ'[rng.integers(3)], 'calls': 1 if n > 3 else int(rng.choice([2, 4])) if n == 3 or rng.random() < 0.8 else 12, 'mix': bool(rng.random() < 0.3), 'seed': gen.sub(rng)})
    for _ in range(400 if big else 56):          # the tied pairs form an arbitrary graph
        n = int(rng.choice([4, 5, 6], p=[0.2, 0.5, 0.3]))
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        keep = [pairs[i] for i in sorted(rng.permutation(len(pairs))[:int(rng.integers(n - 1, n + 3))])]
        out.append({'kind': 'layer', 'n': n, 'obs': [['ZZ', list(e) if rng.random() < 0.7 else list(e)[::-1]] for e in keep], 'start': 'graph', 'circ': [], 'cut': int(rng.integers(1, 3)), 'ang': 1.0, 'ax': 'Y', 'calls': 1, 'mix': False, 'seed': gen.sub(rng)})
    for _ in range(500 if big else 80):
        n = int(rng.choice([3, 4, 5], p=[0.25, 0.5, 0.25]))
        out.append({'kind': 'layer', 'n': n, 'obs': gen.model(gen.MODELS[rng.integers(4)], n), 'start': 'near', 'circ': [], 'cut': int(rng.integers(1, 4)), 'ang': float(np.round(rng.uniform(-3, 3), 3)),
                    'ax': 'XY'[rng.integers(2)], 'calls': 1, 'mix': False, 'seed': gen.sub(rng)})
    for _ in range(120 if big else 16):
        n = int(rng.choice([2, 3]))
        out.append({'kind': 'opt', 'n': n, 'obs': gen.model(gen.MODELS[rng.integers(4)], n), 'circ': [{'g': 'RY', 'w': [q], 'p': [float(np.round(rng.uniform(-3, 3), 3))]} for q in range(n)],
                    'nsteps': int(rng.integers(1, 4)), 'layers': ['squared'] if rng.random() < 0.6 else ['squared', 'local1'], 'seed': gen.sub(rng)})
    for _ in range(200 if big else 24):          # observables so large that the inner descent overshoots
        n = int(rng.choice([1, 2, 3]))
        out.append({'kind': 'layer', 'n': n, 'obs': gen.scaled(gen.observables(rng, n, 1, 3, maxk=2), float(10 ** rng.uniform(0.7, 2))), 'start': ['haar', 'ry', 'circ'][rng.integers(3)], 'circ': gen.circuit(rng, n, 4),
                    'ang': float(np.round(rng.uniform(-3, 3), 3)), 'ax': 'XY'[rng.integers(2)], 'cut': int(rng.integers(3, 30)), 'calls': 1, 'mix': False, 'seed': gen.sub(rng)})
    return out


def start(case, rng, n):
    s = case['start']
    if s == 'haar':
        return ref.haar(rng, 2 ** n)
    if s == 'zero':
        return np.eye(2 ** n, dtype=complex)
    if s == 'plus':
        return ref.unitary([{'g': 'Hadamard', 'w': [q]} for q in range(n)], n)
    if s == 'ry':
        return ref.unitary([{'g': 'R' + case['ax'], 'w': [q], 'p': [case['ang']]} for q in range(n)] + [{'g': 'RZ', 'w': [q], 'p': [0.3]} for q in range(n)], n)
    if s == 'graph':
        return ref.unitary([{'g': 'RY', 'w': [q], 'p': [np.pi / 2 + float(rng.normal()) * 1e-2]} for q in range(n)] + [{'g': 'RZ', 'w': [q], 'p': [float(rng.normal()) * 1e-2]} for q in range(n)], n)
    if s == 'near':         # ties within 1e-3 whose optimal angles differ
        return ref.unitary([{'g': 'R' + case['ax'], 'w': [q], 'p': [case['ang'] + float(rng.normal()) * 1e-4]} for q in range(n)] + [{'g': 'RZ', 'w': [q], 'p': [0.3 + float(rng.normal()) * 1e-4]} for q in range(n)], n)
    return ref.unitary(case['circ'], n)


def cut(k):
    """The real optimizer with a smaller step budget."""
    def opt(*args, **kw):
        kw['nsteps'] = min(k, kw.get('nsteps', k))
        return optimizers.parameter_shift_optimizer(*args, **kw)
    return opt


def judge(m, U, V, gates, obs, H, n):
    """Offline check of one reported gate list."""
    psi = U[:, 0]
    m.check(isinstance(gates, list) and len(gates) >= 1, 'no gates reported', 'gates', stop=True, got=gates)
    try:
        labels = [(g[0][0], tuple(int(x) for x in g[0][1:]), float(g[1])) for g in gates]
    except Exception as e:
        m.check(False, 'malformed gate list: %s' % e, 'gates', stop=True, got=gates)
    m.check(all(len(w) == len(q) and len(w) in (1, 2) and set(w) <= set('XYZ') and all(0 <= x < n for x in q) for w, q, _ in labels), 'gate labels', 'gates', stop=True, got=labels)
    m.check(len({w for w, _, _ in labels}) == 1, 'gates about different words', 'gates', got=labels)
    used = [x for _, q, _ in labels for x in q]
    m.check(len(set(used)) == len(used), 'gates share a qubit', 'disjoint', stop=True, got=labels)
    g = {k: abs(ref.grad_im(psi, ref.pauli_word(k[0], k[1], n), H)) for k in ref.local_words(n, (1, 2))}
    top = max(g.values())
    word = labels[0][0]
    for w, q, _ in labels:
        m.check(abs(ref.grad_im(psi, ref.pauli_word(w, q, n), H)) >= top - 1e-3 - 1.1e-5 * top - 1e-9, 'gate %s%s does not have the maximal gradient' % (w, q), 'gradient', best=top)
    tied = [q for (w, q), v in g.items() if w == word and v >= top - 1e-3 + 1e-6]
    if len({x for q in tied for x in q}) < sum(len(q) for q in tied):
        m.event('overlap')
    W = U
    W0 = U
    for w, q, a in labels:
        W = ref.rot(ref.pauli_word(w, q, n), a) @ W
        W0 = ref.rot(ref.pauli_word(w, q, n), 0.1) @ W0
    m.close(V, W, 'the reported gates do not reproduce the new unitary', 1e-8, 'product', stop=True, gates=labels)
    if 0.05 * len(labels) * sum(o[3] if len(o) > 3 else 1.0 for o in obs) < 2:      # gradient descent with this step is monotone
        m.check(ref.energy(V, H) <= ref.energy(W0, H) + 1e-6, 'energy above that of the starting angles', 'energy', got=ref.energy(V, H), start=ref.energy(W0, H))
    if len(labels) > 1 and len({a for _, _, a in labels}) == len(labels):
        m.event('distinct_angles')
        if [q for _, q, _ in labels] != sorted(q for _, q, _ in labels):
            m.event('unsorted')
    if any(abs(a) > 1e-9 for _, _, a in labels):
        m.key(n, obs, word, sorted(q for _, q, _ in labels))
    return labels


def run(case, m):
    n = case['n']
    rng = np.random.default_rng(case['seed'])
    random.seed(case['seed'])
    H = ref.ham(case['obs'], n)
    obs = build.observables(case['obs'])
    dev = build.device(n)
    if case['kind'] == 'layer':
        L = m.call('constructing', opt_tools.SquaredLieAlgebraLayer, dev, obs, **flags(case['seed']))
        U = start(case, rng, n)
        for _ in range(case['calls']):
            keep = snap(U)
            r = m.call('commuting step', L, U, commute=True, optimizer=cut(case['cut']) if case.get('cut') else optimizers.parameter_shift_optimizer)
            m.check(isinstance(r, tuple) and len(r) == 2, 'commuting step does not return unitary and gates', 'gates', stop=True)
            V = np.asarray(r[0])
            m.check(snap(U) == keep, 'the layer modified its input', 'purity')
            labels = judge(m, U, V, r[1], case['obs'], H, n)
            U = V
            if case['mix']:          # an ordinary line-search step in between
                U = np.asarray(m.call('plain step', L, V))
                m.check(U.shape == V.shape and ref.energy(U, H) <= ref.energy(V, H) + 1e-8, 'plain step after a commuting one raises the energy', 'energy', stop=True)
        m.sample(n=n, obs=case['obs'], gates=[str(x) for x in labels], energy=ref.energy(V, H))
        return
    ls = [opt_tools.SquaredLieAlgebraLayer(dev, obs) if l == 'squared' else opt_tools.LocalLieAlgebraLayer(dev, obs, 1, eta=0.2) for l in case['layers']]
    costs, us, gates = m.call('optimizer in commuting mode', optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, layers=ls, nsteps=case['nsteps'], tol=None,
                              commute=True, return_unitary=True, return_gates=True)
    steps = [k for k in range(case['nsteps']) if case['layers'][k % len(case['layers'])] == 'squared']
    m.check(len(us) == case['nsteps'] + 1 and len(gates) == len(steps), 'gate lists per commuting step', 'optimizer', stop=True, gates=len(gates), steps=case['nsteps'])
    for i, k in enumerate(steps):
        judge(m, np.asarray(us[k]), np.asarray(us[k + 1]), gates[i], case['obs'], H, n)
        m.close(float(costs[k + 1]), ref.energy(np.asarray(us[k + 1]), H), 'cost after a commuting step', 1e-8, 'optimizer')
