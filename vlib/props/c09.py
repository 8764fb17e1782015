import math
import numpy as np
from .. import ref, gen, build
from .common import floats, make_layer, pick_layers, spectrum
from oranssi import optimizers

RULE = ('one evaluation = one cost of a trajectory checked against the closed-form recursion / monotonicity / the '
        'spectrum of the summed observable; distinct = (optimizer, n, observables, eta, layers); non-trivial when the '
        'cost moved by more than 1e-6 during the run.')
NEED = {'recursion': 300, 'monotone': 300, 'bound': 600, 'converged': 10, 'stationary': 10}


def cases(rng, tier):
    out = []
    big = tier != 'quick'
    for _ in range(1200 if big else 120):
        n = int(rng.integers(1, 6))
        out.append({'kind': 'single', 'n': n, 'obs': [gen.observable(rng, n, maxk=n)], 'circ': gen.any_circuit(rng, n), 'eta': gen.eta(rng), 'nsteps': int(rng.integers(1, 30)) if rng.random() < 0.85 else 80})
    for _ in range(300 if big else 40):
        # rotate a +1 eigenstate by a chosen angle: start anywhere between the poles
        n = int(rng.integers(1, 4))
        o = gen.observable(rng, n, maxk=n)
        out.append({'kind': 'converge', 'n': n, 'obs': [o], 'a': float(np.round(rng.uniform(0.05, math.pi - 0.02), 4)), 'eta': float(np.round(rng.uniform(0.3, 1.0), 3)), 'nsteps': 60, 'seed': gen.sub(rng)})
    for _ in range(100 if big else 20):
        n = int(rng.integers(1, 4))
        out.append({'kind': 'stationary', 'n': n, 'obs': [gen.observable(rng, n, maxk=n)], 'sign': int(rng.choice([-1, 1])), 'eta': gen.eta(rng), 'seed': gen.sub(rng)})
    for _ in range(800 if big else 80):
        n = int(rng.choice([1, 2, 3, 4, 5], p=[0.15, 0.4, 0.25, 0.12, 0.08]))
        which = ['exact', 'approx', 'approx', 'approx', 'ps', 'commute', 'adapt'][rng.choice(7, p=[0.2, 0.2, 0.2, 0.15, 0.15, 0.05, 0.05])]
        if n < 2 and which in ('commute', 'adapt'):
            which = 'exact'
        if n > 3 and which in ('commute', 'adapt'):
            which = 'approx'
        out.append({'kind': 'bound', 'which': which, 'n': n, 'obs': gen.observables(rng, n, 1, 6), 'circ': gen.any_circuit(rng, n), 'eta': gen.eta(rng),
                    'layers': pick_layers(rng, n, int(rng.integers(1, 4))), 'nsteps': (int(rng.integers(1, 14)) if rng.random() < 0.85 else 40) if n < 4 else 4, 'seed': gen.sub(rng)})
    return out


def run(case, m):
    n = case['n']
    obs = build.observables(case['obs'])
    H = ref.ham(case['obs'], n)
    lo, hi = spectrum(H)
    dev = build.device(n)
    kind = case['kind']
    eta = case['eta']
    if kind in ('single', 'converge', 'stationary'):
        if kind == 'single':
            circ = case['circ']
        else:
            circ = eigencircuit(case, n)
        r = m.call('exact optimizer', optimizers.exact_lie_optimizer, build.circuit_fn(circ), [], obs, dev,
                   nsteps=case.get('nsteps', 40), eta=eta, tol=0.0)
        c = floats(r)
        for k in range(len(c) - 1):
            x = min(1.0, max(-1.0, c[k]))
            a = math.acos(x)
            m.close(c[k + 1], math.cos(a + eta * math.sin(a)), 'cost does not follow a -> a + eta sin a at step %d' % k, 1e-7, 'recursion', costs=c, eta=eta)
            m.check(c[k + 1] <= c[k] + 1e-9, 'cost of a single observable increased at step %d' % k, 'monotone', costs=c)
        for x in c:
            m.check(-1 - 1e-9 <= x <= 1 + 1e-9, 'cost outside [-1,1]', 'bound', cost=x)
        if eta == 0.0 or kind == 'stationary':
            m.close(c, [c[0]] * len(c), 'cost changes at a stationary point or with eta=0', 1e-9, 'stationary')
            if kind == 'stationary':
                m.close(c[0], float(case['sign']), 'eigenstate does not have the eigenvalue as cost', 1e-8, 'stationary')
        if kind == 'converge':
            m.close(c[0], math.cos(case['a']), 'start cost', 1e-8, 'converged')
            m.check(c[-1] < -1 + 1e-3, 'single-observable run did not approach -1', 'converged', costs=c[-3:], eta=eta, a=case['a'])
        if abs(c[-1] - c[0]) > 1e-6 or kind == 'stationary':
            m.key(kind, n, case['obs'], eta)
        m.sample(kind=kind, obs=case['obs'], eta=eta, costs=c[:6])
        return
    np.random.seed(case['seed'] % (1 << 31))
    fn = build.circuit_fn(case['circ'])
    if case['which'] == 'exact':
        c = m.call('exact optimizer', optimizers.exact_lie_optimizer, fn, [], obs, dev, nsteps=case['nsteps'], eta=eta, perturbation=bool(case['seed'] % 2))
    elif case['which'] == 'ps':
        rng = np.random.default_rng(case['seed'])
        circ = gen.circuit(rng, n, 4, ['RX', 'RY', 'CNOT', 'PauliRot'] if n > 1 else ['RX', 'RY', 'PauliRot'], inv=False)
        k = 0
        for g in circ:
            if g.get('p'):
                g['p'] = [{'i': [k]}]
                k += 1
        circ.append({'g': 'RY', 'w': [0], 'p': [{'i': [k]}]})
        c = m.call('parameter-shift optimizer', optimizers.parameter_shift_optimizer, build.circuit_fn(circ, None), [float(x) for x in rng.uniform(-3, 3, k + 1)], obs, dev, nsteps=min(6, case['nsteps']), eta=eta)
    elif case['which'] == 'commute':
        c = m.call('commuting run', optimizers.approximate_lie_optimizer, fn, [], obs, dev, layers=[make_layer('squared', dev, obs, eta)], nsteps=2, commute=True)
    elif case['which'] == 'adapt':
        c = m.call('adaptive run', optimizers.approximate_lie_optimizer, fn, [], obs, dev, layers=[make_layer('adapt', dev, obs, eta)], nsteps=2)
    else:
        ls = [make_layer(l, dev, obs, eta) for l in case['layers']]
        c = m.call('layered optimizer with %s' % case['layers'], optimizers.approximate_lie_optimizer, fn, [], obs, dev, layers=ls, nsteps=case['nsteps'], eta=eta, perturb=bool(case['seed'] % 2))
    c = floats(c)
    for x in c:
        m.check(lo - 1e-7 <= x <= hi + 1e-7, 'cost %.9f outside the spectrum [%.6f, %.6f]' % (x, lo, hi), 'bound', costs=c)
    if max(c) - min(c) > 1e-6:
        m.key(case['which'], n, case['obs'], eta, case['layers'] if case['which'] == 'approx' else '')


def eigencircuit(case, n):
    """Circuit preparing cos(a/2)|+> + sin(a/2)|-> with |+>, |-> eigenstates of the observable."""
    O = ref.obs_matrix(case['obs'][0], n)
    w, v = np.linalg.eigh(O)
    rng = np.random.default_rng(case['seed'])
    plus, minus = v[:, w > 0], v[:, w < 0]
    cp = rng.normal(size=plus.shape[1]) + 1j * rng.normal(size=plus.shape[1])
    cm = rng.normal(size=minus.shape[1]) + 1j * rng.normal(size=minus.shape[1])
    p = plus @ (cp / np.linalg.norm(cp))
    q = minus @ (cm / np.linalg.norm(cm))
    if case['kind'] == 'stationary':
        psi = p if case['sign'] > 0 else q
    else:
        psi = math.cos(case['a'] / 2) * p + math.sin(case['a'] / 2) * q
    Z = rng.normal(size=(2 ** n, 2 ** n)) + 1j * rng.normal(size=(2 ** n, 2 ** n))
    Z[:, 0] = psi
    Q, R = np.linalg.qr(Z)
    U = Q * (np.diag(R) / np.abs(np.diag(R)))
    return [{'g': 'RawUnitary', 'w': list(range(n)), 'm': U}]
