import numpy as np
import pennylane as qml
from .. import ref, gen, build
from oranssi import circuit_tools, optimizers

RULE = ('one evaluation = one generated circuit whose extracted gates are multiplied out on |0..0> and compared '
        'with the device simulator and with an independent simulator; distinct = circuits (gate names and wires); '
        'non-trivial when the circuit has at least one gate.')
NEED = {'extract': 150, 'start': 20, 'prep': 20}
ALL = list(ref.GATES) + ['PauliRot', 'MultiRZ', 'QubitUnitary', 'DiagonalQubitUnitary'] + list(ref.EXTRA_GATES) + ['QFT', 'MultiControlledX', 'ControlledQubitUnitary']
SIZE = {'QFT': 1, 'MultiControlledX': 2, 'ControlledQubitUnitary': 2}


def cases(rng, tier):
    out = []
    for n in range(1, 6):
        for g in ALL:                        # every gate type, plain and inverted, at least once
            k = (ref.GATES.get(g) or ref.EXTRA_GATES.get(g) or [SIZE.get(g, 1)])[0]
            if k <= n and (n in (3, 5) or (tier != 'quick')):
                out.append({'n': n, 'circ': [gen.gate(rng, n), gen.gate(rng, n, [g]), dict(gen.gate(rng, n, [g]), inv=True), gen.gate(rng, n)]})
    for _ in range(120 if tier == 'quick' else 1500):
        n = int(rng.integers(1, 7))
        out.append({'n': n, 'circ': gen.circuit(rng, n, int(rng.integers(1, 14)) if rng.random() < 0.8 else int(rng.integers(20, 60)), ALL)})
    for _ in range(50 if tier == 'quick' else 500):
        n = int(rng.integers(1, 6))
        out.append({'n': n, 'circ': gen.circuit(rng, n, int(rng.integers(0, 6)), prep=True), 'prep': True})
    for _ in range(16 if tier == 'quick' else 120):
        out.append({'kind': 'template', 'n': int(rng.integers(2, 5)), 't': int(rng.integers(6)), 'seed': gen.sub(rng)})
    for _ in range(20 if tier == 'quick' else 150):
        n = int(rng.integers(1, 5))
        c = gen.circuit(rng, n, int(rng.integers(1, 6)), ['RX', 'RY', 'CRX', 'Rot', 'PauliRot'])
        np_ = 0
        for g in c:                          # route all angles through the parameter list
            ps = []
            for p in g['p']:
                ps.append({'i': [np_], 'c': float(rng.choice([1, -1, 0.5]))})
                np_ += 1
            g['p'] = ps
        out.append({'n': n, 'circ': c, 'params': [gen.angle(rng) for _ in range(np_)], 'form': ['list', 'array', 'tuple'][rng.integers(3)]})
    for _ in range(24 if tier == 'quick' else 200):
        n = int(rng.integers(1, 4))
        out.append({'n': n, 'circ': gen.circuit(rng, n, int(rng.integers(1, 6)), prep=bool(rng.random() < 0.4)), 'start': True,
                    'obs': gen.observables(rng, n, 1, 3, models=0)})
    return out


def fid(a, b):
    return abs(np.vdot(a, b))


def multiply(m, ops, wires, n):
    m.check(len(ops) == len(wires), 'not one wire tuple per matrix', 'aligned', stop=True, ops=len(ops), wires=len(wires))
    psi = np.zeros(2 ** n, dtype=complex)
    psi[0] = 1
    U = np.eye(2 ** n, dtype=complex)
    for a, w in zip(ops, wires):
        w = [int(x) for x in w]
        a = np.asarray(a, dtype=complex)
        m.check(a.shape == (2 ** len(w),) * 2 and len(set(w)) == len(w) and 0 <= min(w) and max(w) < n, 'extracted matrix and wires do not fit', 'aligned', stop=True, shape=a.shape, wires=w)
        psi = ref.apply_gate(psi, a, w, n)
        U = ref.apply_gate(U, a, w, n)
    return psi, U


def template(case, m):
    """Circuits built from PennyLane templates: the device itself is the oracle."""
    n = case['n']
    T = qml.templates

    def circuit(params, **kwargs):
        r = np.random.default_rng(case['seed'])
        ws = [int(x) for x in r.permutation(n)]
        t = case['t']
        if t == 0:
            T.StronglyEntanglingLayers(r.uniform(-3, 3, size=(2, n, 3)), wires=ws)
        elif t == 1:
            T.BasicEntanglerLayers(r.uniform(-3, 3, size=(3, n)), wires=ws, rotation=qml.RY)
        elif t == 2:
            T.AngleEmbedding(r.uniform(-3, 3, size=n), wires=ws, rotation='Y')
            T.RandomLayers(r.uniform(-3, 3, size=(2, 3)), wires=ws, seed=int(r.integers(100)))
        elif t == 3:
            T.BasisEmbedding([int(b) for b in r.integers(0, 2, n)], wires=ws)
            qml.QFT(wires=ws)
        elif t == 4:
            T.ArbitraryUnitary(r.uniform(-3, 3, size=4 ** 2 - 1), wires=ws[:2])
            qml.adjoint(qml.RX)(0.3, wires=ws[0])
        else:
            qml.BasisState(np.array([1] * n), wires=ws)
            qml.ctrl(qml.RY, control=ws[0])(0.7, wires=ws[1])
            T.SimplifiedTwoDesign(r.uniform(-3, 3, size=n), r.uniform(-3, 3, size=(2, n - 1, 2)), wires=ws)
        return qml.state()

    want = np.asarray(qml.QNode(circuit, build.device(n))([]))
    dev = build.device(n)
    ops, wires = m.call('extracting the gates of a template', circuit_tools.get_ops_from_qnode, circuit, [], dev)
    psi, U = multiply(m, ops, wires, n)
    m.check(abs(fid(psi, want) - 1) < 1e-8, 'extracted gates prepare another state than the template (overlap %.6f)' % fid(psi, want), 'extract', template=case['t'])
    m.check(dev.num_executions == 0, 'extraction executed the circuit on the device', 'noexec')
    m.key('template', case['t'], n, case['seed'])


def run(case, m):
    if case.get('kind') == 'template':
        return template(case, m)
    n, circ, params = case['n'], case['circ'], case.get('params', [])
    dev = build.device(n)
    fn = build.circuit_fn(circ)
    want = ref.sim(circ, n, params)
    sim = build.run_state(circ, n, params)
    if abs(fid(want, sim) - 1) > 1e-9:
        raise RuntimeError('reference simulator disagrees with PennyLane on %s' % circ)
    form = {'array': np.array, 'tuple': tuple}.get(case.get('form'), list)
    given = params
    params = form(params)
    before = dev.num_executions
    ops, wires = m.call('extracting the gates', circuit_tools.get_ops_from_qnode, fn, params, dev)
    m.check(dev.num_executions == before, 'extraction executed the circuit on the device', 'noexec')
    m.check(list(params) == list(given), 'extraction modified the parameters', 'noexec')
    if case.get('params'):
        # another extraction from the same circuit and device does not disturb the first, nor reuse it
        other = [float(p) + 0.37 for p in params]
        ops2, wires2 = m.call('extracting the gates', circuit_tools.get_ops_from_qnode, fn, other, dev)
        p2, _ = multiply(m, ops2, wires2, n)
        m.check(abs(fid(p2, ref.sim(circ, n, other)) - 1) < 1e-8, 'extraction at other parameters prepares another state', 'extract')
    psi, U = multiply(m, ops, wires, n)
    m.check(abs(fid(psi, want) - 1) < 1e-8 and abs(np.linalg.norm(psi) - 1) < 1e-8,
            'extracted gates prepare another state than the circuit (overlap %.6f)' % fid(psi, want), 'extract', circ=circ, params=params)
    if not case.get('prep') and not case.get('start'):
        plain = all(g['g'] in dev.operations for g in circ)      # nothing was decomposed
        if plain:
            m.check(len(ops) == len(circ), 'not one matrix per gate', 'order', stop=True)
            for a, w, g in zip(ops, wires, circ):
                m.close(a, ref.gate_matrix(g, params), 'gate %s extracted with another matrix' % g['g'], 1e-9, 'order', gate=g)
                m.check([int(x) for x in w] == g['w'], 'gate extracted with other wires or out of order', 'order', got=list(w), want=g['w'])
        # gates the device does not know are decomposed, which may drop a global phase
        W = ref.unitary(circ, n, params)
        ph = np.trace(W.conj().T @ U) / 2 ** n
        m.check(abs(abs(ph) - 1) < 1e-8 and np.max(np.abs(U - ph * W)) < 1e-8, 'extracted gates give another unitary', 'extract', circ=circ)
        if plain:
            m.close(U, W, 'extracted gates give another unitary', 1e-8, 'extract')
    if any(g['g'] in ('BasisState', 'QubitStateVector') for g in circ):
        m.event('prep')
    if case.get('start'):
        obs = build.observables(case['obs'])
        H = ref.ham(case['obs'], n)
        r = m.call('exact optimizer', optimizers.exact_lie_optimizer, fn, params, obs, dev, nsteps=1, return_state=True)
        m.close(float(r[0][0]), ref.energy(want, H), 'optimizer does not start from the circuit state (cost)', 1e-8, 'start')
        m.check(abs(fid(np.asarray(r[1][0]), want) - 1) < 1e-8, 'optimizer does not start from the circuit state', 'start')
        from oranssi.opt_tools import LocalLieAlgebraLayer
        r = m.call('layered optimizer', optimizers.approximate_lie_optimizer, fn, params, obs, dev, layers=[LocalLieAlgebraLayer(dev, obs, 1)], nsteps=1, return_state=True)
        m.close(float(r[0][0]), ref.energy(want, H), 'layered optimizer does not start from the circuit state', 1e-8, 'start')
    m.key(n, ' '.join('%s%s%s' % (g['g'], '†' if g.get('inv') else '', g['w']) for g in circ))
    m.sample(n=n, gates=[g['g'] for g in circ], extracted=len(ops), overlap=float(fid(psi, want)))
