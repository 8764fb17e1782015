import numpy as np
from .. import ref, gen, build
from .common import floats, make_layer, pick_layers, gates_only
from oranssi import optimizers

RULE = ('one evaluation = one entry of a returned trajectory cross-checked against the other lists (cost/state/unitary/'
        'parameters), one structural check of the returned tuple, or one comparison of a flagged run with the bare run; '
        'distinct = (optimizer, flags, layers, n); non-trivial when at least one flag is set.')
NEED = {'structure': 100, 'cost': 400, 'state': 200, 'unitary': 200, 'flagfree': 60, 'phase': 20, 'params': 20}
AFLAGS = ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'return_perturbations', 'return_zassenhaus']
EFLAGS = ['return_state', 'return_perturbations', 'return_unitary']
PFLAGS = ['return_state', 'return_params']


def subset(rng, flags):
    return [f for f in flags if rng.random() < 0.55]


def cases(rng, tier):
    out = []
    big = tier != 'quick'
    for _ in range(900 if big else 110):
        n = int(rng.choice([1, 2, 3, 4, 5], p=[0.1, 0.45, 0.3, 0.1, 0.05]))
        out.append({'which': 'approx', 'n': n, 'obs': gen.observables(rng, n, 1, 5), 'circ': gen.any_circuit(rng, n), 'flags': subset(rng, AFLAGS),
                    'layers': pick_layers(rng, n, int(rng.integers(1, 4))), 'eta': gen.eta(rng), 'nsteps': int(rng.integers(1, 8)) if rng.random() < 0.7 else int(rng.choice([10, 11, 12, 13, 14, 25])) if n < 4 else 5,
                    'perturb': bool(rng.random() < 0.4), 'tol': [None, 0.0, 1e-3, 0.1][rng.integers(4)], 'seed': gen.sub(rng)})
    for _ in range(500 if big else 70):
        n = int(rng.choice([1, 2, 3], p=[0.2, 0.5, 0.3]))
        pert = bool(rng.random() < 0.4)
        fl = subset(rng, EFLAGS)
        if not pert:
            fl = [f for f in fl if f != 'return_perturbations']
        out.append({'which': 'exact', 'n': n, 'obs': gen.observables(rng, n, 1, 5), 'circ': gen.any_circuit(rng, n), 'flags': fl, 'eta': gen.eta(rng),
                    'nsteps': int(rng.integers(1, 10)) if rng.random() < 0.85 else 30, 'perturb': pert, 'tol': [0.0, 1e-3, 0.1][rng.integers(3)], 'seed': gen.sub(rng)})
    for _ in range(200 if big else 40):
        n = int(rng.integers(1, 4))
        circ = gen.circuit(rng, n, int(rng.integers(1, 5)), ['RX', 'RY', 'RZ', 'PauliRot', 'Hadamard', 'S'], inv=False)
        k = 0
        for g in circ:
            if g.get('p'):
                g['p'] = [{'i': [k]}]
                k += 1
        circ.append({'g': 'RX', 'w': [0], 'p': [{'i': [k]}]})
        out.append({'which': 'ps', 'n': n, 'obs': gen.observables(rng, n, 1, 3), 'circ': circ, 'params': [float(x) for x in np.round(rng.uniform(-3, 3, k + 1), 5)],
                    'flags': subset(rng, PFLAGS), 'eta': gen.eta(rng), 'nsteps': int(rng.integers(1, 7)) if rng.random() < 0.85 else 20, 'tol': [0.0, 1e-3][rng.integers(2)], 'seed': gen.sub(rng)})
    for _ in range(30 if big else 6):
        n = int(rng.integers(2, 4))
        out.append({'which': 'approx', 'n': n, 'obs': gen.observables(rng, n, 1, 3), 'circ': gen.any_circuit(rng, n), 'flags': ['return_state', 'return_unitary', 'return_zassenhaus'],
                    'layers': ['adapt'], 'eta': 0.1, 'nsteps': 2, 'perturb': False, 'tol': 1e-3, 'seed': gen.sub(rng)})
    return out


def launch(case, m, flags):
    n = case['n']
    np.random.seed(case['seed'] % (1 << 31))
    dev = build.device(n)
    obs = build.observables(case['obs'])
    kw = {f: True for f in flags}
    if case['which'] == 'approx':
        ls = [make_layer(l, dev, obs, case['eta']) for l in case['layers']]
        return m.call('layered optimizer %s %s' % (case['layers'], flags), optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev,
                      layers=ls, nsteps=case['nsteps'], eta=case['eta'], tol=case['tol'], perturb=case['perturb'], **kw)
    if case['which'] == 'exact':
        return m.call('exact optimizer %s' % flags, optimizers.exact_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev,
                      nsteps=case['nsteps'], eta=case['eta'], tol=case['tol'], perturbation=case['perturb'], **kw)
    return m.call('parameter-shift optimizer %s' % flags, optimizers.parameter_shift_optimizer, build.circuit_fn(case['circ'], None), list(case['params']), obs, dev,
                  nsteps=case['nsteps'], eta=case['eta'], tol=case['tol'], **kw)


def run(case, m):
    n = case['n']
    H = ref.ham(case['obs'], n)
    flags = case['flags']
    order = {'approx': AFLAGS, 'exact': EFLAGS, 'ps': PFLAGS}[case['which']]
    bare = launch(case, m, [])
    m.check(isinstance(bare, list), 'without return flags the result is not the bare cost list', 'structure', stop=True, got=type(bare).__name__)
    bare = floats(bare)
    r = launch(case, m, flags)
    if not flags:
        m.close(floats(r), bare, 'repeating the run gives another trajectory', 1e-9, 'flagfree')
        return
    m.check(isinstance(r, tuple) and len(r) == 1 + len(flags), 'flags %s do not give a tuple of %d' % (flags, 1 + len(flags)), 'structure', stop=True)
    out = dict(zip([f for f in order if f in flags], r[1:]))
    costs = floats(r[0])
    m.close(costs, bare, 'requesting %s changed the trajectory' % flags, 1e-9, 'flagfree')
    steps = len(costs) - 1
    m.check(1 <= steps <= case['nsteps'], 'number of costs', 'structure', steps=steps)
    start = ref.sim(case['circ'], n, case.get('params', ()))
    m.close(costs[0], ref.energy(start, H), 'first cost is not the cost of the circuit', 1e-8, 'cost')
    us = None
    if 'return_unitary' in out and case['which'] == 'approx':
        us = [np.asarray(u) for u in out['return_unitary']]
        m.check(len(us) == steps + 1, 'number of unitaries %d for %d steps' % (len(us), steps), 'structure', stop=True)
        for k, u in enumerate(us):
            m.check(u.shape == (2 ** n, 2 ** n), 'shape of unitary', 'structure', stop=True)
            m.close(costs[k], ref.energy(u, H), 'cost %d is not the energy of unitary %d' % (k, k), 1e-8, 'unitary')
        W = None if len(gates_only(case['circ'])) != len(case['circ']) else ref.unitary(case['circ'], n)
        if W is not None:
            ph = np.trace(W.conj().T @ us[0]) / 2 ** n
            m.check(np.max(np.abs(us[0] - ph * W)) < 1e-8, 'first unitary is not the circuit', 'unitary')
        m.check(abs(abs(np.vdot(us[0][:, 0], start)) - 1) < 1e-8, 'first unitary does not prepare the circuit state', 'unitary')
    if 'return_unitary' in out and case['which'] == 'exact':
        u = np.asarray(out['return_unitary'])
        m.check(u.shape == (2 ** n, 2 ** n), 'exact optimizer returns one unitary', 'structure', stop=True, shape=u.shape)
        if not case['perturb']:
            m.close(ref.energy(u, H), costs[-1], 'final unitary does not have the final cost', 1e-8, 'unitary')
    if 'return_state' in out:
        st = [np.asarray(s).reshape(-1) for s in out['return_state']]
        m.check(len(st) == steps + 1, 'number of states %d for %d steps' % (len(st), steps), 'structure', stop=True)
        m.check(abs(abs(np.vdot(st[0], start)) - 1) < 1e-8, 'first state is not the circuit state', 'state')
        for k, s in enumerate(st):
            m.close(ref.energy(s, H), costs[k], 'cost %d is not the energy of state %d' % (k, k), 1e-8, 'state')
            m.close(np.linalg.norm(s), 1.0, 'state %d is not normalised' % k, 1e-8, 'state')
            if us is not None:
                m.close(s, us[k][:, 0], 'state %d is not generated by unitary %d' % (k, k), 1e-8, 'state')
    if 'return_params' in out:
        ps = out['return_params']
        m.check(len(ps) == steps + 1, 'number of parameter sets', 'structure', stop=True)
        m.close(np.asarray(ps[0], dtype=float), case['params'], 'first parameters are not the given ones', 1e-12, 'params')
        for k, p in enumerate(ps):
            psi = ref.sim(case['circ'], n, [float(x) for x in np.asarray(p, dtype=float).reshape(-1)])
            m.close(ref.energy(psi, H), costs[k], 'cost %d is not the cost at parameters %d' % (k, k), 1e-8, 'params')
            if 'return_state' in out:
                m.close(st[k], psi, 'state %d is not the state at parameters %d' % (k, k), 1e-8, 'params')
    if 'return_omegas' in out:
        om = out['return_omegas']
        m.check(len(om) == steps and all(isinstance(o, dict) for o in om), 'one gradient dictionary per step', 'structure')
        if us is not None and len(om) == steps:
            for k in range(steps):
                g = max(abs(float(om[k][w]) - ref.grad_im(us[k + 1][:, 0], ref.pauli_word(w, range(n), n), H) / 2 ** n) for w in (ref.words(n) if n < 4 else np.random.default_rng(k).permutation(ref.words(n))[:40]))
                m.check(g < 1e-8, 'gradient %d does not belong to the unitary after step %d' % (k, k), 'phase')
    if 'return_zassenhaus' in out:
        z = out['return_zassenhaus']
        names = [case['layers'][k % len(case['layers'])] for k in range(steps)]
        m.check(len(z) == steps, 'one phase per step', 'structure', got=len(z))
        m.check(all((x in ('su4', 'su8')) == (nm == 'zass') for x, nm in zip(z, names)), 'phases do not follow the layer schedule', 'phase', phases=list(z), layers=names)
    if 'return_gates' in out:
        m.check(len(out['return_gates']) == 0, 'gates reported although no commuting layer ran', 'structure')
    if 'return_perturbations' in out:
        p = list(out['return_perturbations'])
        m.check(all(0 <= x < steps for x in p) and (case['perturb'] or not p), 'perturbation list', 'structure', got=p)
    for c in costs:
        m.event('cost')
    m.key(case['which'], flags, case.get('layers', ''), n)
    m.sample(which=case['which'], flags=flags, layers=case.get('layers'), costs=costs[:5])
