import numpy as np
import pennylane as qml
from .. import ref, gen, build
from ..mon import snap
from oranssi import circuit_tools, opt_tools, optimizers

RULE = ('one evaluation = the reported gradient dictionary (4^n values) at one unitary compared with Im<[P,H]>/2^n and, '
        'for sampled words, with a finite-difference derivative of the energy; distinct = (source, n, observables, state '
        'kind); non-trivial when at least one gradient exceeds 1e-6.')
NEED = {'gradient': 100, 'derivative': 300, 'layer': 50, 'trajectory': 30}


def cases(rng, tier):
    out = []
    big = tier != 'quick'
    for _ in range(1000 if big else 200):
        n = int(rng.choice([1, 2, 3, 4, 5], p=[0.15, 0.3, 0.3, 0.2, 0.05]))
        out.append({'kind': 'direct', 'n': n, 'obs': gen.observables(rng, n, 1, 5, maxk=n, herm=0.1), 'circ': gen.any_circuit(rng, n), 'haar': bool(rng.random() < 0.5), 'seed': gen.sub(rng)})
    for _ in range(300 if big else 40):
        n = int(rng.choice([2, 3, 4], p=[0.55, 0.38, 0.07]))
        out.append({'kind': 'layer', 'n': n, 'obs': gen.observables(rng, n, 1, 5, maxk=n, herm=0.1), 'seed': gen.sub(rng)})
    for _ in range(200 if big else 28):
        n = int(rng.choice([2, 3, 4], p=[0.7, 0.27, 0.03]))
        out.append({'kind': 'traj', 'n': n, 'obs': gen.observables(rng, n, 1, 4, herm=0.1), 'obs2': gen.observables(rng, n, 1, 3), 'circ': gen.any_circuit(rng, n), 'steps': int(rng.integers(1, 5)) if rng.random() < 0.85 else 13 if n > 2 or rng.random() < 0.5 else 45, 'seed': gen.sub(rng)})
    return out


def check_dict(m, om, U, H, n, what, kind):
    if not m.check(isinstance(om, dict) and sorted(map(str, om)) == sorted(ref.words(n)), what + ': keys are not the Pauli words', kind):
        return
    psi = U[:, 0]
    nz = 0
    for w in ref.words(n):
        g = ref.grad_im(psi, ref.pauli_word(w, range(n), n), H) / 2 ** n
        nz += abs(g) > 1e-6
        if not m.close(float(om[w]), g, '%s: gradient along %s' % (what, w), 1e-9, kind):
            return
    m.close(float(om['I' * n]), 0.0, what + ': identity has a gradient', 1e-12, kind)
    return nz


def layers(n, obs, dev):
    yield 'local1', opt_tools.LocalLieAlgebraLayer(dev, obs, 1)
    if n % 2 == 0:
        yield 'local2', opt_tools.LocalLieAlgebraLayer(dev, obs, 2, trotterize=True)
    yield 'custom', opt_tools.CustomDirectionLieAlgebraLayer(dev, obs, directions=['X', 'ZZ'])
    yield 'stochastic', opt_tools.StochasticLieAlgebraLayer(dev, obs)
    yield 'squared', opt_tools.SquaredLieAlgebraLayer(dev, obs)
    yield 'adapt', opt_tools.AdaptVQELayer(dev, obs)
    if n == 2:
        yield 'v2', opt_tools.ZassenhausLayerV2(dev, obs)
    if n >= 3:
        yield 'su8', opt_tools.SU8_AlgebraLayer(dev, obs)
        yield 'zassenhaus', opt_tools.ZassenhausLayer(dev, obs)


def run(case, m):
    n = case['n']
    rng = np.random.default_rng(case['seed'])
    np.random.seed(case['seed'] % (1 << 31))
    obs = build.observables(case['obs'])
    H = ref.ham(case['obs'], n)
    dev = build.device(n)
    if case['kind'] == 'direct':
        U = ref.haar(rng, 2 ** n) if case['haar'] else ref.unitary([g for g in case['circ'] if g['g'] not in ('BasisState', 'QubitStateVector')], n)
        keep = snap([U, obs])
        om = m.call('gradients', circuit_tools.get_all_su_n_directions, U, obs, dev)
        m.check(snap([U, obs]) == keep, 'gradient evaluation modified its arguments', 'purity')
        nz = check_dict(m, om, U, H, n, 'reported gradient', 'gradient')
        if nz:
            m.key('direct', n, case['obs'], 'haar' if case['haar'] else 'circuit')
        ws = ref.words(n)
        for w in [ws[i] for i in rng.permutation(len(ws))[:6]]:
            P = ref.pauli_word(w, range(n), n)
            h = 1e-4
            # fourth-order central difference of the energy along exp(-itP)U
            e = {k: ref.energy(ref.rot(P, 2 * k * h) @ U, H) for k in (-2, -1, 1, 2)}
            d = (e[-2] - 8 * e[-1] + 8 * e[1] - e[2]) / (12 * h)
            m.close(float(om[w]), -d / 2 ** n, 'gradient along %s is not the derivative of the energy' % w, 1e-7, 'derivative')
        m.sample(n=n, obs=case['obs'], nonzero=nz, sample={w: float(om[w]) for w in ws[:4]})
    elif case['kind'] == 'layer':
        for name, L in layers(n, obs, dev):
            U = ref.haar(rng, 2 ** n)
            om = m.call('gradients of layer ' + name, L.get_lie_algebra_directions, U)
            check_dict(m, om, U, H, n, 'gradient reported by layer ' + name, 'layer')
            m.key('layer', name, n, case['obs'])
            # the same array refilled in place is another unitary
            W = np.array(U, dtype=complex)
            m.call('gradients of layer ' + name, L.get_lie_algebra_directions, W)
            W[...] = ref.haar(rng, 2 ** n)
            check_dict(m, m.call('gradients of layer ' + name, L.get_lie_algebra_directions, W), W, H, n, 'gradient of a refilled unitary by layer ' + name, 'layer')
            if name not in ('adapt', 'v2'):
                V = m.call('applying layer ' + name, L, U)
                om = m.call('gradients of layer ' + name, L.get_lie_algebra_directions, V)
                check_dict(m, om, np.asarray(V), H, n, 'gradient reported by used layer ' + name, 'layer')
    else:
        for name, L in layers(n, obs, dev):
            if name in ('adapt', 'v2'):
                continue
            if case['steps'] > 4 and name not in ('local1', 'stochastic', 'squared'):
                continue
            r = m.call('optimizer with ' + name, optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev,
                       layers=[L], nsteps=case['steps'], tol=None, return_omegas=True, return_unitary=True)
            if not m.check(isinstance(r, tuple) and len(r) == 3 and len(r[1]) == case['steps'] and len(r[2]) == case['steps'] + 1, 'gradients do not line up with the steps', 'trajectory'):
                return
            for k in range(case['steps']):
                check_dict(m, r[1][k], np.asarray(r[2][k + 1]), H, n, 'gradient of step %d (%s)' % (k, name), 'trajectory')
            m.key('traj', name, n, case['steps'])
        # several layers, each with observables of its own: the reported gradient is that of the layer of the step
        obs2 = build.observables(case['obs2'])
        H2 = ref.ham(case['obs2'], n)
        ls = [opt_tools.LocalLieAlgebraLayer(dev, obs, 1), opt_tools.SquaredLieAlgebraLayer(dev, obs2), opt_tools.StochasticLieAlgebraLayer(dev, obs)]
        r = m.call('optimizer with three layers', optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, layers=ls, nsteps=4, return_omegas=True, return_unitary=True)
        for k in range(4):
            check_dict(m, r[1][k], np.asarray(r[2][k + 1]), (H, H2, H)[k % 3], n, 'gradient of step %d (three layers)' % k, 'trajectory')
