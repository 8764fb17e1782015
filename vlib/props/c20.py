import numpy as np
import pennylane as qml
from .. import ref, gen, build
from .common import floats, make_layer, layer_ok
from oranssi import opt_tools, optimizers

RULE = ('one evaluation = one call with exactly one invalid argument (the others valid and random) that must raise while the '
        'execution counter of the monitored device stays at its value, or one call at a documented boundary that must '
        'succeed; distinct = (entry point, argument, value); non-trivial: all.')
NEED = {'rejections': 600, 'unexecuted': 500, 'accepted': 120}

BAD = {
    'eta': [-0.1, -1e-12, 1.0000001, 1.1, 2.0, float('nan'), float('inf'), -float('inf'), 1, 0, '0.1', None, [0.1], 0.1j],
    'nsteps': [0, -1, -10, 2.0, 1.5, '3', None, [2], float('inf')],
    'tol': [-1e-12, -0.1, -1.0, float('nan'), -float('inf'), 1, 0, '1e-3', [0.1], 1j],
    'flag': [1, 0, 'yes', None, 1.0, [], 'False'],
    'escape_tol': [1, 'a', None, True],
    'layers': ['tuple', 'none', 'string', 'dict', 'bare', 'mixed', 'number', 'class', 'function'],
    'circuit': ['expval', 'nothing', 'probs', 'sample'],
    'bool': [1, 0, 'True', None, 1.0],
    'locality': [0, 3, -1, 4, '1', None, 1.5, [1]],
    'stride': [2, -1, 'x', None, 0.5],
}
FLAGS = {'approx': ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'perturb', 'return_perturbations', 'return_zassenhaus'],
         'exact': ['return_state', 'perturbation', 'return_perturbations', 'return_unitary'],
         'ps': ['return_state', 'return_params']}
LAYER_CLASSES = ['local1', 'local2', 'custom', 'stoch', 'squared', 'su8', 'zass', 'adapt', 'v2']


def cases(rng, tier):
    out = []
    reps = 8 if tier != 'quick' else 2
    for rep in range(reps):
        for which in ('approx', 'exact', 'ps'):
            for arg in ('eta', 'nsteps', 'tol') + (('escape_tol', 'layers') if which == 'approx' else ()):
                out.append({'kind': 'opt', 'which': which, 'arg': arg, 'seed': gen.sub(rng)})
            out.append({'kind': 'opt', 'which': which, 'arg': 'circuit', 'seed': gen.sub(rng)})
            for f in FLAGS[which]:
                out.append({'kind': 'opt', 'which': which, 'arg': f, 'seed': gen.sub(rng)})
            out.append({'kind': 'accept', 'which': which, 'seed': gen.sub(rng)})
        for l in LAYER_CLASSES:
            for arg in ('eta', 'unitary_error_check', 'trotterize'):
                out.append({'kind': 'layer', 'layer': l, 'arg': arg, 'seed': gen.sub(rng)})
            out.append({'kind': 'layer_ok', 'layer': l, 'seed': gen.sub(rng)})
        out.append({'kind': 'shape', 'seed': gen.sub(rng)})
    return out


def ncount(dev):
    return int(dev.num_executions)


def circuits(kind):
    def circuit(params, **kwargs):
        qml.RX(0.3, wires=0)
        for i, p in enumerate(params):
            qml.RY(p, wires=0)
        if kind == 'state':
            return qml.state()
        if kind == 'expval':
            return qml.expval(qml.PauliZ(0))
        if kind == 'probs':
            return qml.probs(wires=[0])
        if kind == 'sample':
            return qml.sample(qml.PauliZ(0))
    return circuit


def base(which, rng, n, dev, obs):
    kw = {'nsteps': int(rng.integers(1, 3)), 'eta': float(np.round(rng.uniform(0, 1), 3)), 'tol': 1e-3}
    for f in FLAGS[which]:
        if rng.random() < 0.5:
            kw[f] = bool(rng.random() < 0.5)
    if which == 'exact' and kw.get('return_perturbations'):
        kw['perturbation'] = True
    if which == 'approx':
        kw['layers'] = [make_layer('local1', dev, obs), make_layer('squared', dev, obs)]
    return kw


ENTRY = {'approx': optimizers.approximate_lie_optimizer, 'exact': optimizers.exact_lie_optimizer, 'ps': optimizers.parameter_shift_optimizer}


def odd_layers(name, good):
    return {'tuple': tuple(good), 'none': None, 'string': 'local', 'dict': {0: good[0]}, 'bare': good[0], 'mixed': good + ['X'], 'number': 3,
            'class': [opt_tools.LocalLieAlgebraLayer], 'function': [good[0], lambda u: u]}[name]


def run(case, m):
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(1, 4))
    kind = case['kind']
    if kind == 'opt':
        which, arg = case['which'], case['arg']
        group = arg if arg in BAD else 'flag'
        values = list(BAD[group])
        if arg == 'tol' and which != 'approx':
            values.append(None)
        if arg == 'circuit':
            values = ['expval', 'nothing', 'probs'] if which != 'ps' else ['expval', 'state', 'probs']
        for v in values:
            dev = build.device(n)
            obs = build.observables(gen.observables(rng, n, 1, 3))
            kw = base(which, rng, n, dev, obs)
            circ = circuits('state' if which != 'ps' else None)
            if arg == 'circuit':
                circ = circuits(v)
            elif arg == 'layers':
                kw['layers'] = odd_layers(v, kw['layers'])
            else:
                kw[arg] = v
            before = ncount(dev)
            m.rejects('%s with %s=%r' % (ENTRY[which].__name__, arg, v), ENTRY[which], circ, [] if which != 'ps' else [0.2], obs, dev, **kw)
            m.check(ncount(dev) == before, '%s with %s=%r executed circuits before rejecting' % (ENTRY[which].__name__, arg, v), 'unexecuted', executions=ncount(dev) - before)
            m.key(which, arg, repr(v))
        if which == 'exact' and arg == 'return_perturbations':
            dev = build.device(n)
            m.rejects('return_perturbations without perturbation', ENTRY[which], circuits('state'), [], build.observables([['Z', [0]]]), dev, return_perturbations=True, nsteps=1)
            m.check(ncount(dev) == 0, 'executed before rejecting', 'unexecuted')
        m.sample(which=which, arg=arg, values=[repr(v) for v in values])
    elif kind == 'accept':
        which = case['which']
        tries = [('eta', 0.0), ('eta', 1.0), ('eta', np.float64(0.5)), ('tol', 0.0), ('tol', float('inf')), ('tol', 100.0), ('nsteps', 1), ('nsteps', 2)]
        if which == 'approx':
            tries.append(('tol', None))
        for f in FLAGS[which]:
            tries += [(f, True), (f, False)]
        for arg, v in tries:
            dev = build.device(n)
            obs = build.observables(gen.observables(rng, n, 1, 3))
            kw = base(which, rng, n, dev, obs)
            kw[arg] = v
            if which == 'exact' and kw.get('return_perturbations'):
                kw['perturbation'] = True
            r = m.call('%s with %s=%r' % (ENTRY[which].__name__, arg, v), ENTRY[which], circuits('state' if which != 'ps' else None), [] if which != 'ps' else [0.2], obs, dev, **kw)
            costs = r[0] if isinstance(r, tuple) else r
            m.check(len(costs) == kw['nsteps'] + 1 and np.all(np.isfinite(floats(costs))), 'result with %s=%r' % (arg, v), 'accepted')
            m.key(which, 'accept', arg, v)
    elif kind in ('layer', 'layer_ok'):
        name = case['layer']
        n = {'local2': 2, 'su8': 3, 'zass': 3, 'v2': 2, 'adapt': 2}.get(name, n)
        dev = build.device(n)
        obs = build.observables(gen.observables(rng, n, 1, 3))
        if kind == 'layer_ok':
            for kw in ({'eta': 0.0}, {'eta': 1.0}, {'eta': np.float64(0.25)}, {'unitary_error_check': True}, {'trotterize': True}, {'unitary_error_check': False, 'trotterize': False}):
                m.call('constructing %s with %s' % (name, kw), make_layer, name, dev, obs, **({k: v for k, v in kw.items() if not (k == 'trotterize' and name[:5] in ('local', 'custo'))}))
                m.event('accepted')
                m.key(name, 'ok', sorted(kw))
            return
        values = BAD['eta'] if case['arg'] == 'eta' else BAD['bool']
        for v in values:
            if case['arg'] == 'trotterize' and name in ('local1', 'local2'):
                fn, a, kw = opt_tools.LocalLieAlgebraLayer, (dev, obs, int(name[5])), {'trotterize': v}
            elif case['arg'] == 'trotterize' and name == 'custom':
                fn, a, kw = opt_tools.CustomDirectionLieAlgebraLayer, (dev, obs, None), {'trotterize': v}
            else:
                fn, a, kw = make_layer, (name, dev, obs), {case['arg']: v}
                if case['arg'] == 'eta' and v is None:
                    continue
            m.rejects('%s layer with %s=%r' % (name, case['arg'], v), fn, *a, **kw)
            m.check(ncount(dev) == 0, 'constructing %s with %s=%r executed circuits' % (name, case['arg'], v), 'unexecuted')
            m.key(name, case['arg'], repr(v))
    else:
        O = opt_tools
        for loc in BAD['locality']:
            dev = build.device(2)
            m.rejects('locality %r' % (loc,), O.LocalLieAlgebraLayer, dev, build.observables([['Z', [0]]]), loc)
            m.key('locality', repr(loc))
        for s in BAD['stride']:
            m.rejects('stride %r' % (s,), O.LocalLieAlgebraLayer, build.device(2), build.observables([['Z', [0]]]), 2, stride=s)
            m.key('stride', repr(s))
        for k in (1, 3, 5):
            m.rejects('SU(4) layer on %d qubits' % k, O.LocalLieAlgebraLayer, build.device(k), build.observables([['Z', [0]]]), 2)
            m.key('odd', k)
        for k in (1, 2):
            m.rejects('SU(8) layer on %d qubits' % k, O.SU8_AlgebraLayer, build.device(k), build.observables([['Z', [0]]]))
            m.rejects('Zassenhaus layer on %d qubits' % k, O.ZassenhausLayer, build.device(k), build.observables([['Z', [0]]]))
            m.key('small', k)
        for d in (['Q'], ['X', 'W'], ['XX'], ['x'], ['']):
            m.rejects('directions %s' % d, O.LocalLieAlgebraLayer, build.device(2), build.observables([['Z', [0]]]), 1, directions=d)
            m.key('dirs', d)
        for d in (['Q'], ['XYZ'], ['X', 'IX'], ['']):
            m.rejects('custom directions %s' % d, O.CustomDirectionLieAlgebraLayer, build.device(2), build.observables([['Z', [0]]]), d)
            m.key('cdirs', d)
        for loc, k, kw in ((1, 1, {}), (2, 2, {'stride': 1}), (2, 4, {'stride': 0}), (1, 3, {'directions': ['X', 'Z']}), (2, 2, {'directions': ['XY']})):
            m.call('local layer %s %s %s' % (loc, k, kw), O.LocalLieAlgebraLayer, build.device(k), build.observables([['Z', [0]]]), loc, **kw)
            m.event('accepted')
        for k in (3, 4):
            m.call('SU(8) layer', O.SU8_AlgebraLayer, build.device(k), build.observables([['Z', [0]]]))
            m.call('Zassenhaus layer', O.ZassenhausLayer, build.device(k), build.observables([['Z', [0]]]))
            m.event('accepted', 2)
        for out in (2, 5):
            m.rejects('observable on missing qubit', O.SquaredLieAlgebraLayer, build.device(2), [qml.PauliZ(out)])
            m.key('obs', out)
