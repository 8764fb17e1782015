import numpy as np
import pennylane as qml
from .. import ref, gen, build
from .common import floats, make_layer, pick_layers
from oranssi import opt_tools, optimizers

RULE = ('one evaluation = one step of a recorded run judged against the stopping rule (must stop / may stop / must not '
        'stop), one layer call matched with the cyclic schedule, or one inserted perturbation examined; layered runs use '
        'monitor layers that replay arbitrary cost trajectories and record what they are handed; distinct = (optimizer, '
        'nsteps, tol, trajectory); non-trivial when the rule fires or the tolerance is within 1% of a cost difference.')
NEED = {'budget': 150, 'stop': 60, 'nostop': 500, 'schedule': 300, 'perturb_list': 20, 'perturb_op': 30, 'scale': 10, 'prefix': 60}
ELIGIBLE = {'exact': (4, 1), 'ps': (3, 1), 'approx': (9, 5)}     # first zero-based step, distance of the reference cost


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(1200 if big else 170):
        out.append({'kind': 'script', 'n': int(rng.choice([1, 2, 3], p=[0.5, 0.3, 0.2])), 'nsteps': int(rng.choice([1, 2, 5, 8, 9, 10, 11, 12, 14, 16, 20, 25, 33, 60])), 'shape': ['plateau', 'walk', 'decay', 'saw', 'echo', 'early'][rng.integers(6)],
                    'tol': [None, 0.0, 1e-9, 1e-3, 0.05, 0.3, 10.0, 'near', 'near', 'near'][rng.integers(10)], 'layers': int(rng.integers(1, 7)), 'perturb': bool(rng.random() < 0.3),
                    'eta': gen.eta(rng), 'seed': gen.sub(rng)})
    for _ in range(300 if big else 40):
        n = int(rng.choice([1, 2, 3]))
        out.append({'kind': 'exact', 'n': n, 'obs': gen.observables(rng, n, 1, 4), 'circ': gen.any_circuit(rng, n), 'eta': gen.eta(rng), 'nsteps': int(rng.choice([1, 3, 4, 5, 6, 8, 12, 20, 40])), 'seed': gen.sub(rng)})
    for _ in range(150 if big else 24):
        n = int(rng.integers(1, 4))
        k = int(rng.integers(1, 4))
        circ = [{'g': ['RX', 'RY', 'RZ'][rng.integers(3)], 'w': [int(rng.integers(n))], 'p': [{'i': [i]}]} for i in range(k)]
        out.append({'kind': 'ps', 'n': n, 'obs': gen.observables(rng, n, 1, 3), 'circ': circ, 'params': [float(x) for x in np.round(rng.uniform(-3, 3, k), 4)], 'eta': gen.eta(rng),
                    'nsteps': int(rng.choice([1, 2, 3, 4, 5, 8, 12, 25])), 'seed': gen.sub(rng)})
    for _ in range(150 if big else 24):
        n = int(rng.choice([1, 2, 3]))
        out.append({'kind': 'real', 'n': n, 'obs': gen.observables(rng, n, 1, 4, herm=0.08), 'circ': gen.any_circuit(rng, n), 'layers': [l for l in pick_layers(rng, n, 2) if l != 'stoch'] or ['local1'],
                    'eta': gen.eta(rng), 'nsteps': int(rng.choice([9, 10, 11, 14, 18, 32])), 'seed': gen.sub(rng)})
    for _ in range(100 if big else 20):
        n = int(rng.choice([1, 2, 3]))
        out.append({'kind': 'exactpert', 'n': n, 'eta': float(np.round(rng.uniform(0.2, 1.0), 3)), 'nsteps': int(rng.integers(6, 12)), 'seed': gen.sub(rng)})
    for _ in range(100 if big else 16):
        out.append({'kind': 'scale', 'n': int(rng.choice([1, 2, 3])), 'nsteps': int(rng.integers(11, 16)), 'seed': gen.sub(rng)})
    return out


class Scripted(opt_tools.LieLayer):
    """Monitor layer: rotates qubit 0 so that <Z0> follows a script and logs every call."""

    def __init__(self, device, observables, n, name, log, script):
        super().__init__(device, observables, n)
        self.n, self.name, self.log, self.script = n, name, log, script

    def __call__(self, circuit_unitary, *args, **kwargs):
        k = len(self.log)
        c = self.script[k] if k < len(self.script) else 0.0
        out = ref.rot(ref.pauli_word('Y', (0,), self.n), float(np.arccos(c)))
        self.log.append((self.name, np.array(circuit_unitary), out))
        return out

    def __repr__(self):
        return 'Scripted(%s)' % self.name


def script(shape, rng, N):
    if shape == 'plateau':
        v = []
        while len(v) < N:
            v += [float(rng.uniform(-1, 1))] * int(rng.integers(1, 9))
        return v[:N]
    if shape == 'walk':
        return [float(x) for x in np.clip(np.cumsum(rng.normal(0, 0.1, N)), -1, 1)]
    if shape == 'decay':
        return [float(-1 + 1.9 * np.exp(-0.4 * k)) for k in range(N)]
    if shape == 'saw':
        per = int(rng.integers(2, 7))
        return [float(-0.9 + 1.5 * ((k % per) / per)) for k in range(N)]
    if shape == 'echo':                   # equals the value five steps before, but not the previous one
        base = [float(x) for x in rng.uniform(-1, 1, 5)]
        return [base[k % 5] for k in range(N)]
    return [0.5] * min(N, 8) + [float(x) for x in rng.uniform(-1, 1, max(0, N - 8))]


def rule(costs, s, which, tol):
    """(must fire, may fire) at zero-based step s; costs[s+1] is the cost after step s."""
    first, back = ELIGIBLE[which]
    if tol is None or s < first:
        return False, False
    a, b = costs[s + 1], costs[s + 1 - back]
    d = abs(a - b)
    slack = 1.0001e-5 * max(abs(a), abs(b)) + 1e-12
    return d <= tol - 1e-12 or d == 0.0, d <= tol + slack


def judge(m, costs, nsteps, which, tol, perturb=None):
    """Offline checker of one run."""
    steps = len(costs) - 1
    m.check(1 <= steps <= nsteps, 'the run takes %d steps with a budget of %d' % (steps, nsteps), 'budget', stop=True)
    if perturb is not None:
        m.check(steps == nsteps, 'a run with perturbations stopped early', 'budget', stop=True, steps=steps, nsteps=nsteps)
        must = {s for s in range(steps) if rule(costs, s, which, tol)[0]}
        may = {s for s in range(steps) if rule(costs, s, which, tol)[1]}
        got = [int(x) for x in perturb]
        m.check(must <= set(got) <= may and got == sorted(set(got)), 'perturbation log does not list the steps at which the rule fires', 'perturb_list', stop=True, got=got, must=sorted(must), may=sorted(may), costs=costs, tol=tol)
        return
    for s in range(steps):
        must, may = rule(costs, s, which, tol)
        last = s == steps - 1
        if last and steps < nsteps:
            m.check(may, '%s: stopped after step %d although the rule does not fire' % (which, s), 'stop', stop=True, costs=costs, tol=tol)
        elif not last:
            m.check(not must, '%s: continued after step %d although the cost had converged' % (which, s), 'nostop', stop=True, costs=costs, tol=tol)


def near(rng, costs, which):
    """A tolerance within 1% of a cost difference at (or shortly before) an eligible step."""
    first, back = ELIGIBLE[which]
    ds = [abs(costs[s + 1] - costs[s + 1 - back]) for s in range(max(back - 1, 0), len(costs) - 1)]
    ds = [d for d in ds if d > 1e-7]
    if not ds:
        return 1e-3
    return float(ds[rng.integers(len(ds))] * rng.choice([0.99, 1.01, 0.95, 1.05]))


def run(case, m):
    n, kind, nsteps = case['n'], case['kind'], case['nsteps']
    rng = np.random.default_rng(case['seed'])
    np.random.seed(case['seed'] % (1 << 31))
    dev = build.device(n)
    if kind == 'script':
        return scripted(case, m, rng, dev)
    if kind == 'exactpert':
        return exactpert(case, m, rng, dev)
    if kind == 'scale':
        return scale(case, m, rng, dev)
    obs = build.observables(case['obs'])
    which = {'exact': 'exact', 'ps': 'ps', 'real': 'approx'}[kind]

    def go(tol, **kw):
        if kind == 'exact':
            return m.call('exact run', optimizers.exact_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, nsteps=nsteps, eta=case['eta'], tol=tol, **kw)
        if kind == 'ps':
            return m.call('parameter-shift run', optimizers.parameter_shift_optimizer, build.circuit_fn(case['circ'], None), list(case['params']), obs, dev, nsteps=nsteps, eta=case['eta'], tol=tol)
        return m.call('layered run', optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, layers=[make_layer(l, dev, obs, case['eta']) for l in case['layers']],
                      nsteps=nsteps, eta=case['eta'], tol=tol, **kw)
    base = floats(go(None if kind == 'real' else 0.0))
    judge(m, base, nsteps, which, None if kind == 'real' else 0.0)
    for tol in (near(rng, base, which), near(rng, base, which), float('inf'), 1e-3):
        c = floats(go(tol))
        m.close(c, base[:len(c)], 'the tolerance changes the trajectory itself', 1e-9, 'prefix')
        judge(m, c, nsteps, which, tol)
        m.key(which, nsteps, tol, case['obs'])
    if kind == 'real':
        tol = near(rng, base, which)
        r = go(tol, perturb=True, return_perturbations=True)
        judge(m, floats(r[0]), nsteps, which, tol, r[1])
    if kind == 'exact':
        tol = near(rng, base, which)
        r = go(tol, perturbation=True, return_perturbations=True)
        judge(m, floats(r[0]), nsteps, which, tol, r[1])
    m.sample(which=which, nsteps=nsteps, base=base, stopped=len(c) - 1)


def launch(case, m, dev, sc, tol, perturb, eta, names):
    log = []
    obs = [qml.PauliZ(0)]
    layers = {nm: Scripted(dev, obs, case['n'], nm, log, sc) for nm in set(names)}
    r = m.call('scripted run', optimizers.approximate_lie_optimizer, build.circuit_fn([{'g': 'RX', 'w': [0], 'p': [0.4]}]), [], obs, dev, layers=[layers[x] for x in names], nsteps=case['nsteps'], tol=tol,
               eta=eta, perturb=perturb, return_perturbations=True, return_unitary=True)
    return log, floats(r[0]), r[1], r[2]


def scripted(case, m, rng, dev):
    n, nsteps = case['n'], case['nsteps']
    sc = script(case['shape'], rng, nsteps + 2)
    names = [chr(97 + i) for i in range(case['layers'])]
    if len(names) > 2 and rng.random() < 0.5:
        names[-1] = names[0]                       # the same instance twice in the list
    tol = case['tol']
    if tol == 'near':
        tol = near(rng, [float(np.cos(0.4))] + sc[:nsteps], 'approx')
    log, costs, us, pert = launch(case, m, dev, sc, tol, case['perturb'], case['eta'], names)
    steps = len(costs) - 1
    m.check(len(log) == steps, 'number of layer calls', 'schedule', stop=True, calls=len(log), steps=steps)
    m.check([l[0] for l in log] == [names[k % len(names)] for k in range(steps)], 'layers are not applied cyclically in list order', 'schedule', stop=True, got=[l[0] for l in log], names=names)
    m.close(costs[1:], sc[:steps], 'reported costs are not those of the unitaries returned by the layers', 1e-7, 'schedule', stop=True)
    for k in range(steps):
        m.close(us[k + 1], log[k][2], 'recorded unitary %d' % (k + 1), 1e-10, 'schedule')
    judge(m, costs, nsteps, 'approx', tol, pert if case['perturb'] else None)
    if not case['perturb']:
        m.check(len(pert) == 0, 'perturbations reported although disabled', 'perturb_list')
    fired = set(int(x) for x in pert)
    for k in range(1, steps):
        a, b = log[k - 1][2], log[k][1]
        if k - 1 in fired:
            perturbation(m, b @ a.conj().T, case['eta'], n)
        else:
            m.close(b, a, 'layer %d is not handed the unitary of the previous step' % k, 1e-12, 'schedule', stop=True)
    if steps:
        first = log[0][1]
        m.close(first, ref.rot(ref.pauli_word('X', (0,), n), 0.4), 'first layer is not handed the circuit', 1e-8, 'schedule')
    if fired or steps < nsteps or case['tol'] == 'near':
        m.key('approx', nsteps, tol, case['shape'], case['perturb'], len(names))
    m.sample(shape=case['shape'], tol=tol, nsteps=nsteps, taken=steps, perturbations=sorted(fired))


def perturbation(m, V, eta, n):
    d = 2 ** n
    m.check(np.max(np.abs(V.imag)) < 1e-9, 'the perturbation is not real', 'perturb_op', stop=True)
    m.check(ref.unitary_err(V) < 1e-9 and abs(np.linalg.det(V) - 1) < 1e-7, 'the perturbation is not a rotation', 'perturb_op', stop=True)
    off = (V - V.T).real / 2
    size = np.max(np.abs(off))
    m.check(size <= 0.6 * eta + 1e-9, 'the perturbation is not small', 'perturb_op', size=size, eta=eta)
    if eta > 1e-3:
        m.check(size > 1e-8 * eta, 'nothing is perturbed', 'perturb_op', size=size, eta=eta)
    else:
        m.check(size < 1e-2, 'the perturbation does not shrink with eta', 'perturb_op', size=size, eta=eta)


def scale(case, m, rng, dev):
    """Same random draws, different eta: the perturbations are powers of one another."""
    sc = [0.25] * (case['nsteps'] + 2)
    Vs = {}
    for eta in (1.0, 0.5, 0.0):
        np.random.seed(case['seed'] % (1 << 31))
        log, costs, us, pert = launch(case, m, dev, sc, 1e-3, True, eta, ['a'])
        judge(m, costs, case['nsteps'], 'approx', 1e-3, pert)
        Vs[eta] = [log[k + 1][1] @ log[k][2].conj().T for k in range(case['nsteps'] - 1) if k in set(int(x) for x in pert)]
    m.check(len(Vs[1.0]) == len(Vs[0.5]) == len(Vs[0.0]) >= 1, 'perturbations per run', 'scale', stop=True)
    for a, b, c in zip(Vs[1.0], Vs[0.5], Vs[0.0]):
        m.close(b @ b, a, 'the perturbation generator is not proportional to eta', 1e-8, 'scale', stop=True)
        m.close(c, np.eye(2 ** case['n']), 'perturbation at eta=0', 1e-10, 'scale')
    offs = np.concatenate([((V - V.T).real / 2)[np.triu_indices(2 ** case['n'], 1)] for V in Vs[1.0]])
    if len(offs) >= 25:
        m.check(0.01 < np.sqrt(np.mean(offs ** 2)) < 0.15, 'size of the perturbation', 'scale', rms=float(np.sqrt(np.mean(offs ** 2))))
    m.key('scale', case['n'], case['nsteps'], case['seed'])


def exactpert(case, m, rng, dev):
    """Identity observable: the flow stands still, so the states show the perturbations alone."""
    n, nsteps, eta = case['n'], case['nsteps'], case['eta']
    circ = [{'g': 'RY', 'w': [q], 'p': [float(rng.uniform(-3, 3))]} for q in range(n)]
    costs, states, pert = m.call('exact run', optimizers.exact_lie_optimizer, build.circuit_fn(circ), [], [qml.Identity(0)], dev, nsteps=nsteps, eta=eta, tol=1e-3, perturbation=True, return_state=True, return_perturbations=True)
    costs = floats(costs)
    judge(m, costs, nsteps, 'exact', 1e-3, pert)
    fired = set(int(x) for x in pert)
    for k in range(1, nsteps):
        a, b = np.asarray(states[k]), np.asarray(states[k + 1])
        if k - 1 in fired:
            m.check(np.max(np.abs(b.imag)) < 1e-8, 'the perturbation is not real', 'perturb_op')
            m.check(1e-9 < np.linalg.norm(b - a) < 1.5 * eta, 'size of the perturbation', 'perturb_op', size=float(np.linalg.norm(b - a)), eta=eta)
        else:
            m.close(b, a, 'state moved although nothing was perturbed', 1e-8, 'perturb_op')
    m.key('exactpert', n, nsteps, eta)
