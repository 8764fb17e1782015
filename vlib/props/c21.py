import copy
import json
import os
import random
import subprocess
import sys
import numpy as np
import pennylane as qml
from .. import ref, gen, build
from ..mon import snap
from .common import floats, make_layer, pick_layers, layer_ok, LAYERS
from oranssi import opt_tools, optimizers, circuit_tools, utils, plot_utils

RULE = ('one evaluation = one comparison of a deep snapshot (arguments, earlier results, global random states) before and '
        'after a call, or of two executions of the same run separated by unrelated activity in the same process; distinct = '
        '(optimizer/layer, options, n, interleaving); non-trivial when the run changed the unitary or produced a result.')
NEED = {'inputs': 200, 'results': 100, 'rerun': 100, 'rng': 80, 'history': 100, 'interleave': 80, 'helpers': 100, 'fresh': 10}
MEMORYLESS = ['local1', 'local1t', 'local2', 'local2t', 'custom', 'customt', 'customall', 'su8', 'v2']
RANDOM = {'stoch'}


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(900 if big else 110):
        which = ['approx', 'exact', 'ps'][rng.choice(3, p=[0.6, 0.2, 0.2])]
        n = int(rng.choice([1, 2, 3, 4], p=[0.2, 0.48, 0.28, 0.04]))
        c = {'kind': 'opt', 'which': which, 'n': n, 'obs': gen.observables(rng, n, 1, 4), 'eta': gen.eta(rng), 'nsteps': int(rng.integers(1, 6)), 'noise': int(rng.integers(1 << 20)), 'seed': gen.sub(rng),
             'circ': gen.any_circuit(rng, n), 'layers': pick_layers(rng, n, int(rng.integers(1, 4))), 'perturb': bool(rng.random() < 0.25), 'commute': False}
        if c['perturb']:
            c['nsteps'] = 12
        elif n <= 2 and rng.random() < 0.3:         # a run that stops of its own accord
            c.update({'nsteps': 13, 'tol': [5.0, 1e-2][rng.integers(2)]})
        if which == 'approx' and n >= 2 and rng.random() < 0.12:
            c.update({'commute': True, 'layers': ['squared'], 'nsteps': 1, 'perturb': False})
        elif which == 'approx' and n == 2 and rng.random() < 0.1:
            c.update({'layers': ['adapt'], 'nsteps': 1, 'perturb': False})
        out.append(c)
    for _ in range(500 if big else 70):
        n = int(rng.choice([1, 2, 3, 4], p=[0.32, 0.32, 0.28, 0.08]))
        pool = [l for l in MEMORYLESS if layer_ok(l, n)]
        out.append({'kind': 'history', 'n': n, 'layer': pool[rng.integers(len(pool))], 'obs': gen.observables(rng, n, 1, 4, herm=0.08), 'eta': gen.eta(rng), 'seed': gen.sub(rng)})
    for _ in range(300 if big else 50):
        n = int(rng.choice([2, 3]))
        pool = [l for l in LAYERS if layer_ok(l, n) and l != 'stoch']
        out.append({'kind': 'interleave', 'n': n, 'a': pool[rng.integers(len(pool))], 'b': (pool + ['stoch'])[rng.integers(len(pool) + 1)], 'obs': gen.observables(rng, n, 1, 4), 'obs2': gen.observables(rng, n, 1, 4), 'seed': gen.sub(rng)})
    for _ in range(20 if big else 6):
        n = 2
        out.append({'kind': 'adapt', 'n': n, 'obs': gen.observables(rng, n, 1, 3), 'obs2': gen.observables(rng, n, 1, 3), 'seed': gen.sub(rng)})
    for _ in range(120 if big else 14):
        n = int(rng.choice([2, 3]))
        herm = [['herm', sorted(int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]), 0]]
        ob = lambda: [[h[0], h[1], int(rng.integers(1 << 20))] for h in herm] + [[''.join('XYZ'[rng.integers(3)] for _ in range(n)), list(range(n))], ['XYZ'[rng.integers(3)], [0]]]
        out.append({'kind': 'fresh', 'n': n, 'before': [ob() for _ in range(2)], 'obs': ob(), 'circ': gen.any_circuit(rng, n), 'layers': pick_layers(rng, n, 3), 'eta': gen.eta(rng), 'nsteps': 4, 'noise': int(rng.integers(1 << 20)), 'seed': gen.sub(rng)})
    for _ in range(200 if big else 30):
        out.append({'kind': 'helpers', 'n': int(rng.integers(1, 4)), 'seed': gen.sub(rng)})
    return out


def noise(seed):
    """Unrelated activity in the same process: other optimizers, layers and helpers on other devices."""
    r = np.random.default_rng(seed)
    random.seed(seed)
    np.random.seed(seed % (1 << 31))
    for _ in range(int(r.integers(1, 4))):
        n = int(r.integers(1, 4))
        obs = build.observables(gen.observables(r, n, 1, 3))
        dev = build.device(n)
        name = pick_layers(r, n, 1)[0]
        k = int(r.integers(4))
        if k == 0:
            optimizers.approximate_lie_optimizer(build.circuit_fn(gen.any_circuit(r, n)), [], obs, dev, layers=[make_layer(name, dev, obs, 0.5)], nsteps=2, return_omegas=True)
        elif k == 1:
            optimizers.exact_lie_optimizer(build.circuit_fn(gen.any_circuit(r, n)), [], obs, dev, nsteps=6, perturbation=True)
        elif k == 2:
            L = make_layer(name, dev, obs, 0.9)
            L(L(ref.haar(r, 2 ** n)))
            L.set_eta(0.7)
        else:
            circuit_tools.get_commuting_set([(0, 1), (1, 2), (0, 2)])
            circuit_tools.get_all_su_n_directions(ref.haar(r, 2 ** n), obs, dev)


def rngstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4]), random.getstate()


def values(r):
    """Deep comparable form of a result (rounded would hide nothing: exact equality is required up to 1e-12)."""
    if isinstance(r, (list, tuple)):
        return [values(x) for x in r]
    if isinstance(r, np.ndarray) and r.dtype == object:
        return [values(x) for x in r]
    if isinstance(r, dict):
        return [[str(k), values(v)] for k, v in r.items()]
    if isinstance(r, str) or r is None:
        return r
    return np.asarray(r, dtype=complex)


def same(a, b, tol=1e-12):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or a is None:
        return a == b
    return isinstance(b, np.ndarray) and a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= tol)


def smash(r):
    """Overwrite everything mutable in a result."""
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype != object:
            r[...] = 7
        return
    if isinstance(r, dict):
        for k in list(r):
            smash(r[k])
            r[k] = 7.0
        return
    if isinstance(r, (list, tuple)):
        for x in r:
            smash(x)
        if isinstance(r, list):
            r.append('junk')


def run(case, m):
    return globals()['do_' + case['kind']](case, m)


def do_opt(case, m):
    n, which = case['n'], case['which']
    obs = build.observables(case['obs'])
    rnd = case['commute'] or (which == 'approx' and (set(case['layers']) & RANDOM or case['perturb'])) or (which == 'exact' and case['perturb'])
    params = [0.3, -1.1] if which == 'ps' else []
    circ = case['circ'] if which != 'ps' else [{'g': 'RX', 'w': [0], 'p': [{'i': [0]}]}, {'g': 'RY', 'w': [n - 1], 'p': [{'i': [1]}]}]

    def go(dev, layers=None):
        kw = {'nsteps': case['nsteps'], 'eta': case['eta']}
        if which == 'approx':
            layers = layers if layers is not None else [make_layer(l, dev, obs, case['eta']) for l in case['layers']]
            ids = [id(l) for l in layers]
            if case['commute']:
                kw.update(commute=True, return_gates=True)
            r = m.call('layered run %s' % case['layers'], optimizers.approximate_lie_optimizer, build.circuit_fn(circ), params, obs, dev, layers=layers, tol=1e-2 if case['perturb'] else case.get('tol'), perturb=case['perturb'],
                       return_state=True, return_unitary=True, return_omegas=True, **kw)
            m.check([id(l) for l in layers] == ids, 'the layer list was modified', 'inputs')
            return r
        if which == 'exact':
            return m.call('exact run', optimizers.exact_lie_optimizer, build.circuit_fn(circ), params, obs, dev, perturbation=case['perturb'], tol=case.get('tol', 1e-2), return_state=True, return_unitary=True, **kw)
        return m.call('parameter-shift run', optimizers.parameter_shift_optimizer, build.circuit_fn(circ, None), params, obs, dev, tol=case.get('tol', 1e-6), return_state=True, return_params=True, **kw)

    keep_p, keep_o = snap(params), snap(obs)
    random.seed(case['seed'])
    np.random.seed(case['seed'] % (1 << 31))
    before = rngstate()
    dev = build.device(n)
    r1 = go(dev)
    after = rngstate()
    m.check(snap(params) == keep_p and snap(obs) == keep_o, 'arguments were modified by the run', 'inputs', which=which)
    if not rnd:
        m.check(before == after, 'a run without randomness consumed random numbers', 'rng', which=which, layers=case['layers'])
    v1 = copy.deepcopy(values(r1))
    keep_r = snap(list(r1))
    noise(case['noise'])
    if rnd:
        random.seed(case['seed'])
        np.random.seed(case['seed'] % (1 << 31))
    dev2 = dev if case['seed'] % 2 else build.device(n)
    r2 = go(dev2)
    m.check(same(v1, values(r2)), 'the same run gives another result later in the process', 'rerun', which=which, layers=case['layers'], stop=True)
    m.check(snap(list(r1)) == keep_r, 'an earlier result was modified by a later run', 'results')
    m.check(snap(params) == keep_p and snap(obs) == keep_o, 'arguments were modified by the run', 'inputs', which=which)
    if which == 'approx' and set(case['layers']) <= set(MEMORYLESS) and not rnd:
        ls = [make_layer(l, dev, obs, case['eta']) for l in case['layers']]
        go(dev, ls)
        m.check(same(v1, values(go(dev, ls))), 'reusing memoryless layers changes the result', 'rerun', layers=case['layers'])
        # the step size of a layer is its own: a run with another eta leaves it alone
        own = 0.37
        ls = [make_layer(l, dev, obs, own) for l in case['layers']]
        U = ref.haar(np.random.default_rng(case['seed']), 2 ** n)
        first = [np.array(m.call('applying ' + l, L, U)) for l, L in zip(case['layers'], ls)]
        go(dev, ls)
        for l, L, f in zip(case['layers'], ls, first):
            m.close(m.call('applying ' + l, L, U), f, 'an optimizer run changed layer %s' % l, 1e-12, 'history')
    # results belong to the caller: overwriting them must not reach any later run
    v1c = [float(np.real(x)) for x in r1[0]]
    smash(r1)
    smash(r2)
    if rnd:
        random.seed(case['seed'])
        np.random.seed(case['seed'] % (1 << 31))
    m.check(same(v1, values(go(dev))), 'a later run changes when earlier results are overwritten by the caller', 'rerun', which=which, layers=case['layers'])
    m.check(snap(params) == keep_p and snap(obs) == keep_o, 'results share memory with the arguments', 'inputs', which=which)
    m.key(which, case['layers'] if which == 'approx' else '', n, case['perturb'], case['commute'], dev2 is dev)
    m.sample(which=which, layers=case['layers'], n=n, costs=floats(v1c))


def do_history(case, m):
    n = case['n']
    rng = np.random.default_rng(case['seed'])
    dev = build.device(n)
    obs = build.observables(case['obs'])
    L = make_layer(case['layer'], dev, obs, case['eta'])
    Us = [ref.haar(rng, 2 ** n) for _ in range(3)]
    st = rngstate()
    outs, snaps, first = [], [], {}
    for k in [0, 1, 0, 2, 1, 0]:
        keep = snap(Us[k])
        out = m.call('applying ' + case['layer'], L, Us[k])
        m.check(snap(Us[k]) == keep, 'layer %s modified its input' % case['layer'], 'inputs', stop=True)
        for o, s in zip(outs, snaps):
            m.check(snap(o) == s, 'layer %s modified a result it returned earlier' % case['layer'], 'results', stop=True)
        outs.append(out)
        snaps.append(snap(out))
        if k in first:
            m.close(out, first[k], 'layer %s depends on its call history' % case['layer'], 1e-12, 'history', stop=True)
        first.setdefault(k, np.array(out))
    # gradients do not disturb the layer either
    L.get_lie_algebra_directions(Us[1])
    m.close(m.call('applying ' + case['layer'], L, Us[0]), first[0], 'layer depends on gradient queries', 1e-12, 'history')
    # returned arrays are the caller's: writing into them must not reach the layer
    if outs[0].flags.writeable and not np.may_share_memory(outs[0], Us[0]):
        outs[0][...] = 0
    m.close(m.call('applying ' + case['layer'], L, Us[1]), first[1], 'layer shares memory with a result', 1e-12, 'history')
    # the caller may refill an array it passed before: only its content counts
    m.close(m.call('applying ' + case['layer'], L, Us[0]), first[0], 'layer depends on its history', 1e-12, 'history')
    buf = np.array(Us[0], dtype=complex)
    m.close(m.call('applying ' + case['layer'], L, buf), first[0], 'layer depends on its history', 1e-12, 'history')
    buf[...] = Us[2]
    m.close(m.call('applying ' + case['layer'], L, buf), first[2], 'layer %s remembers an array instead of its content' % case['layer'], 1e-12, 'history')
    if n <= 2 and case['layer'] != 'v2':            # a long history
        W = Us[2]
        for _ in range(45):
            W = m.call('applying ' + case['layer'], L, W)
        m.close(m.call('applying ' + case['layer'], L, Us[1]), first[1], 'layer %s changes after many calls' % case['layer'], 1e-12, 'history')
    m.check(rngstate() == st, 'layer consumed random numbers', 'rng')
    m.key('history', case['layer'], n, case['eta'])


def do_interleave(case, m):
    n = case['n']
    rng = np.random.default_rng(case['seed'])
    Us = [ref.haar(rng, 2 ** n) for _ in range(4)]
    dev = build.device(n)
    o1, o2 = build.observables(case['obs']), build.observables(case['obs2'])
    A = make_layer(case['a'], dev, o1, 0.3)
    alone = [np.array(m.call('applying ' + case['a'], A, U)) for U in Us]
    dev = build.device(n)
    A, B = make_layer(case['a'], dev, o1, 0.3), make_layer(case['b'], dev, o2, 0.8)
    B.set_eta(0.5)
    for k, U in enumerate(Us):
        m.call('applying ' + case['b'], B, Us[(k + 1) % 4])
        got = m.call('applying ' + case['a'], A, U)
        m.close(got, alone[k], 'layer %s is influenced by layer %s on the same device' % (case['a'], case['b']), 1e-12, 'interleave', stop=True)
        if k == 1:
            A2 = make_layer(case['a'], dev, o1, 0.9)        # a second instance with another step size
            A2.set_eta(0.05)
            m.call('applying ' + case['a'], A2, U)
    m.key('interleave', case['a'], case['b'], n)


def fresh_run(case):
    """The run of a 'fresh' case; used in this process and, unpolluted, in a new one."""
    n = case['n']
    obs = build.observables(case['obs'])
    random.seed(case['seed'])
    np.random.seed(case['seed'] % (1 << 31))
    dev = build.device(n)
    layers = [make_layer(l, dev, obs, case['eta']) for l in case['layers']]
    a = optimizers.approximate_lie_optimizer(build.circuit_fn(case['circ']), [], obs, dev, layers=layers, tol=None, nsteps=case['nsteps'], return_state=True, return_unitary=True)
    e = optimizers.exact_lie_optimizer(build.circuit_fn(case['circ']), [], obs, dev, nsteps=case['nsteps'], eta=case['eta'], return_state=True)
    h = circuit_tools.get_hamiltonian_matrix(n, obs)
    g = circuit_tools.get_all_su_n_directions(a[2][-1], obs, dev)
    out = np.concatenate([np.ravel(np.asarray(x, dtype=complex)) for x in (a[0], a[1], a[2], e[0], e[1], h, [g[k] for k in sorted(g)])])
    return [[float(z.real), float(z.imag)] for z in out]


def do_fresh(case, m):
    n = case['n']
    noise(case['noise'])
    for obs in case['before']:           # same kinds of observables on the same wires, but others
        dev = build.device(n)
        o = build.observables(obs)
        for l in case['layers']:
            make_layer(l, dev, o, 0.4)(ref.haar(np.random.default_rng(1), 2 ** n))
        optimizers.exact_lie_optimizer(build.circuit_fn(case['circ']), [], o, dev, nsteps=2, eta=0.9)
        circuit_tools.get_hamiltonian_matrix(n, o)
        circuit_tools.get_all_su_n_directions(np.eye(2 ** n, dtype=complex), o, dev)
    here = m.call('run in a used process', fresh_run, case)
    code = 'import sys, json\nout = sys.stdout\nsys.stdout = open("/dev/null", "w")\nsys.path[:0] = %r\nfrom vlib.props import c21\njson.dump(c21.fresh_run(json.loads(sys.argv[1])), out)\n' % ([os.path.dirname(os.path.abspath(optimizers.__file__))[:-len('/oranssi')], os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))],)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code, json.dumps(case)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=300, env=dict(os.environ, PYTHONHASHSEED=str(case['noise'] % 1000)))
    if p.returncode != 0:
        raise RuntimeError('fresh process failed: ' + p.stderr[-400:])
    there = json.loads(p.stdout)
    m.check(len(here) == len(there) and np.max(np.abs(np.array(here) - np.array(there))) <= 1e-11, 'the run gives another result in a fresh process', 'fresh', layers=case['layers'], obs=case['obs'])
    m.key('fresh', case['layers'], n, case['obs'])


def do_adapt(case, m):
    n = case['n']
    obs = build.observables(case['obs'])
    rng = np.random.default_rng(case['seed'])
    U = ref.haar(rng, 2 ** n)
    res = []
    dev = build.device(n)
    other = build.observables(case['obs2'])
    for rep in range(3):            # on a new device, on the same one again, and next to another layer on it
        L = opt_tools.AdaptVQELayer(dev, obs)
        L2 = opt_tools.AdaptVQELayer(dev, other)
        stub = lambda circuit, params, *a, **k: ([0.0], [np.array(params, dtype=float)])
        p = []
        if rep == 2:
            m.call('another adaptive layer', L2, ref.haar(rng, 2 ** n), params=[], optimizer=stub)
        keep = snap(U)
        V, p1 = m.call('adaptive layer', L, U, params=p, optimizer=optimizers.parameter_shift_optimizer)
        m.check(p == [] and snap(U) == keep, 'the parameter list of the caller was modified', 'inputs')
        k1 = snap(p1)
        if rep == 2:
            m.call('another adaptive layer', L2, U, params=[[0.2] * n], optimizer=stub)
        W, p2 = m.call('adaptive layer', L, V, params=p1, optimizer=optimizers.parameter_shift_optimizer)
        m.check(snap(p1) == k1, 'parameters returned earlier were modified', 'results')
        res.append(values([V, p1, W, p2]))
        noise(case['seed'] % 1000 + rep)
    # a long sequence of growth steps
    L = opt_tools.AdaptVQELayer(dev, obs)
    p, V = [], U
    for step in range(9):
        keep, keepV = snap(p), snap(V)
        V2, p2 = m.call('adaptive layer', L, V, params=p, optimizer=stub)
        m.check(snap(p) == keep and snap(V) == keepV, 'parameters or unitary of the caller were modified in call %d' % step, 'inputs', stop=True)
        V, p = V2, p2
    m.check(same(res[0], res[1]), 'the adaptive layer depends on what ran before', 'rerun')
    m.check(same(res[0], res[2]), 'the adaptive layer is influenced by another one on the same device', 'interleave')
    m.key('adapt', case['obs'])


def do_helpers(case, m):
    n = case['n']
    rng = np.random.default_rng(case['seed'])
    obs_d = gen.observables(rng, n, 1, 4)
    obs = build.observables(obs_d)
    dev = build.device(n)
    U = ref.haar(rng, 2 ** n)
    keep = snap(U), snap(obs)
    st = rngstate()
    a = m.call('directions', circuit_tools.get_all_su_n_directions, U, obs, dev)
    b = m.call('directions', circuit_tools.get_all_su_n_directions, U, obs, dev)
    m.check(same(values(a), values(b)), 'gradient report not reproducible', 'helpers')
    h = m.call('hamiltonian', circuit_tools.get_hamiltonian_matrix, n, obs)
    h2 = np.array(h)
    h[...] = 7
    m.close(m.call('hamiltonian', circuit_tools.get_hamiltonian_matrix, n, obs), h2, 'Hamiltonian matrix shares memory with an earlier result', 1e-12, 'helpers')
    U2 = ref.haar(rng, 2 ** n)
    a2 = values(m.call('directions', circuit_tools.get_all_su_n_directions, np.array(U2), obs, dev))
    buf = np.array(U, dtype=complex)
    m.call('directions', circuit_tools.get_all_su_n_directions, buf, obs, dev)
    buf[...] = U2
    m.check(same(values(m.call('directions', circuit_tools.get_all_su_n_directions, buf, obs, dev)), a2), 'gradient report remembers an array instead of its content', 'helpers')
    co = [0.5] * len(obs)
    m.call('hamiltonian', circuit_tools.get_hamiltonian_matrix, n, obs, co)
    m.check(co == [0.5] * len(obs), 'coefficients modified', 'helpers')
    k = int(rng.integers(1, n + 1))
    op = ref.haar(rng, 2 ** k)
    w = tuple(gen.wires(rng, n, k))
    ko = snap(op)
    full = m.call('embedding', circuit_tools.get_full_operator, op, w, n)
    f2 = np.array(full)
    full[...] = 3
    m.check(snap(op) == ko, 'embedding modified or aliases the operator', 'helpers')
    m.close(m.call('embedding', circuit_tools.get_full_operator, op, w, n), f2, 'embedding not reproducible', 1e-12, 'helpers')
    for fn, args in ((utils.get_su_2_operators, ()), (utils.get_su_4_operators, ()), (utils.get_su_n_operators, (2 ** n,))):
        for idn in (False, True):
            x, names = m.call('basis', fn, *args, identity=idn, return_names=True)
            xs, ns = [np.array(y) for y in x], list(names)
            for y in x:
                y[...] = 9
            names.append('junk')
            x2, names2 = m.call('basis', fn, *args, identity=idn, return_names=True)
            m.check(list(names2) == ns and all(np.array_equal(p, q) for p, q in zip(x2, xs)), 'operator basis is shared between callers', 'helpers')
    rho = plot_utils.spherical_to_state(0.3, 1.1)
    kr = snap(rho)
    m.call('spherical', plot_utils.state_to_spherical, rho)
    m.check(snap(rho) == kr, 'state modified', 'helpers')
    m.check((snap(U), snap(obs)) == keep, 'helpers modified their arguments', 'inputs')
    m.check(rngstate() == st, 'helpers consumed random numbers', 'rng')
    edges = [(int(i), int(i) + 1) for i in range(4)] + [(0, 4)]
    ke = list(edges)
    m.call('commuting set', circuit_tools.get_commuting_set, edges)
    m.check(edges == ke, 'edge list modified', 'helpers')
    m.key('helpers', n, obs_d)
