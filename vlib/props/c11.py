import numpy as np
from .. import ref, gen, build
from .common import floats, make_layer, pick_layers, LAYERS, layer_ok
from ..mon import snap
from oranssi import opt_tools, optimizers

RULE = ('one evaluation = one produced unitary whose deviation from unitarity is measured (or one equivariance / '
        'projection identity); distinct = (layer, n, options, regime); non-trivial when the layer moved the unitary by '
        'more than 1e-9.')
NEED = {'unitary': 500, 'long': 10, 'equivariance': 60, 'guarded': 20, 'project': 30}


def cases(rng, tier):
    out = []
    big = tier != 'quick'
    for rep in range(20 if big else 3):
        for n in (1, 2, 3, 4):
            for l in LAYERS + ['v2']:
                if layer_ok(l, n):
                    out.append({'kind': 'layer', 'layer': l, 'n': n, 'obs': gen.observables(rng, n, 1, 5), 'eta': gen.eta(rng), 'check': bool(rng.random() < 0.5), 'calls': 4, 'seed': gen.sub(rng)})
    for l in LAYERS + ['v2']:
        if layer_ok(l, 5) or l in ('squared', 'su8', 'zass', 'stoch'):
            out.append({'kind': 'layer', 'layer': l, 'n': 5, 'obs': gen.observables(rng, 5, 1, 5), 'eta': gen.eta(rng), 'check': bool(rng.random() < 0.5), 'calls': 2, 'seed': gen.sub(rng)})
    for _ in range(100 if big else 16):
        n = int(rng.choice([1, 2, 3]))
        out.append({'kind': 'long', 'n': n, 'layers': pick_layers(rng, n, int(rng.integers(1, 4))), 'obs': gen.observables(rng, n, 1, 4), 'circ': gen.any_circuit(rng, n),
                    'eta': gen.eta(rng), 'nsteps': 400 if big else 120, 'perturb': bool(rng.random() < 0.5), 'seed': gen.sub(rng)})
    for _ in range(200 if big else 24):
        n = int(rng.choice([1, 2, 3]))
        l = ['local1', 'local1t', 'local2', 'local2t', 'custom', 'customt', 'stoch'][rng.integers(7)]
        if not layer_ok(l, n):
            l = 'local1'
        out.append({'kind': 'guarded', 'layer': l, 'n': n, 'obs': gen.observables(rng, n, 1, 4), 'eta': float(10 ** rng.uniform(0, 10)), 'seed': gen.sub(rng)})
    for _ in range(300 if big else 40):
        out.append({'kind': 'project', 'n': int(rng.integers(1, 5)), 'seed': gen.sub(rng)})
    for _ in range(20 if big else 4):
        n = int(rng.choice([2, 3]))
        out.append({'kind': 'adapt', 'n': n, 'obs': gen.observables(rng, n, 1, 3), 'seed': gen.sub(rng)})
    for _ in range(60 if big else 12):
        n = int(rng.choice([1, 2, 3]))
        out.append({'kind': 'exact', 'n': n, 'obs': gen.observables(rng, n, 1, 5), 'circ': gen.any_circuit(rng, n), 'eta': gen.eta(rng), 'nsteps': 300 if big else 80, 'seed': gen.sub(rng)})
    return out


def run(case, m):
    n = case['n']
    d = 2 ** n
    rng = np.random.default_rng(case['seed'])
    np.random.seed(case['seed'] % (1 << 31))
    dev = build.device(n)
    kind = case['kind']
    if kind == 'project':
        return project(case, m, rng, dev)
    obs = build.observables(case['obs'])
    if kind == 'layer':
        name = case['layer']
        kw = {'unitary_error_check': case['check']}
        L = m.call('constructing ' + name, make_layer, name, dev, obs, case['eta'], **kw)
        U = ref.haar(rng, d)
        for c in range(case['calls']):
            keep = snap(U)
            V = np.asarray(m.call('applying ' + name, L, U))
            m.check(V.shape == (d, d) and ref.unitary_err(V) < 1e-9, 'layer %s left the unitary group' % name, 'unitary', stop=True, err=ref.unitary_err(V) if V.shape == (d, d) else str(V.shape))
            m.check(snap(U) == keep, 'layer %s modified its input' % name, 'purity')
            if np.max(np.abs(V - U)) > 1e-9:
                m.key(name, n, case['check'], case['eta'])
            U = V if c % 2 == 0 else ref.haar(rng, d)
        if name != 'v2':
            equivariance(case, m, rng, dev, obs, name, kw)
    elif kind == 'long':
        ls = [make_layer(l, dev, obs, case['eta']) for l in case['layers']]
        r = m.call('long run with %s' % case['layers'], optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, layers=ls,
                   nsteps=case['nsteps'], tol=1e-9 if case['perturb'] else None, perturb=case['perturb'], eta=case['eta'], return_unitary=True)
        m.check(len(r[1]) == case['nsteps'] + 1, 'run was cut short', 'long')
        for u in r[1][1:]:
            m.check(ref.unitary_err(np.asarray(u)) < 1e-8, 'unitary drifts off the group during a long run', 'unitary', stop=True, err=ref.unitary_err(np.asarray(u)))
        m.key('long', case['layers'], n, case['perturb'])
    elif kind == 'exact':
        r = m.call('exact optimizer', optimizers.exact_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, nsteps=case['nsteps'], tol=1e-9, eta=case['eta'],
                   perturbation=True, return_state=True, return_unitary=True)
        m.check(ref.unitary_err(np.asarray(r[2])) < 1e-8, 'exact optimizer drifts off the unitary group', 'unitary', err=ref.unitary_err(np.asarray(r[2])))
        for s in r[1]:
            m.close(np.linalg.norm(np.asarray(s)), 1.0, 'state norm drifts', 1e-8, 'unitary')
        m.key('exact', n, case['obs'], case['eta'])
    elif kind == 'guarded':
        L = m.call('constructing', make_layer, case['layer'], dev, obs, 0.1, unitary_error_check=True)
        m.call('setting the step size', L.set_eta, case['eta'])
        for _ in range(3):
            U = ref.haar(rng, d)
            V = np.asarray(m.call('applying guarded ' + case['layer'], L, U))
            nf = 400 * len(obs)
            m.check(V.shape == (d, d) and ref.unitary_err(V) < 1e-8 * min(nf, 50), 'guarded layer %s left the unitary group at eta=%.3g' % (case['layer'], case['eta']), 'guarded', err=ref.unitary_err(V))
            m.event('unitary')
        m.key('guarded', case['layer'], n, '1e%d' % int(np.log10(case['eta'])))
    elif kind == 'adapt':
        L = opt_tools.AdaptVQELayer(dev, obs)
        U, p = ref.haar(rng, d), []
        for _ in range(2):
            U, p = m.call('adaptive layer', L, U, params=p, optimizer=optimizers.parameter_shift_optimizer)
            m.check(ref.unitary_err(np.asarray(U)) < 1e-9, 'adaptive layer left the unitary group', 'unitary')
        m.key('adapt', n, case['obs'])


def gap(m, U, case, n, name):
    """Distance between the two largest gradients among the words the layer may choose."""
    H = ref.ham(case['obs'], n)
    ks = {'squared': (1, 2), 'su8': (1, 2, 3), 'zass': (2,)}[name]
    g = sorted((abs(ref.grad_im(U[:, 0], ref.pauli_word(w, q, n), H)) for w, q in ref.local_words(n, ks)), reverse=True)
    return g[0] - g[1] if len(g) > 1 else 1.0


def equivariance(case, m, rng, dev, obs, name, kw):
    n = case['n']
    d = 2 ** n
    U = ref.haar(rng, d)
    if name in ('squared', 'su8', 'zass') and gap(m, U, case, n, name) < 1e-6:
        return
    W = np.eye(d, dtype=complex)
    W[1:, 1:] = ref.haar(rng, d - 1)
    res = []
    for X in (U, U @ W):
        np.random.seed(case['seed'] % (1 << 31))
        res.append(np.asarray(m.call('applying ' + name, make_layer(name, dev, obs, case['eta'], **kw), X)))
    m.close(res[0] @ W, res[1], 'layer %s does not act by left multiplication with a factor depending on the state only' % name, 1e-7, 'equivariance')


def project(case, m, rng, dev):
    n = case['n']
    d = 2 ** n
    L = opt_tools.LocalLieAlgebraLayer(dev, build.observables([['Z', [0]]]), 1)
    f = getattr(L, '_project_onto_unitary', None)
    if f is None:
        m.event('project')
        return
    U = ref.haar(rng, d)
    A = U + rng.choice([1e-9, 1e-6, 1e-2, 0.3]) * (rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))
    P = np.asarray(m.call('projection', f, A))
    m.check(ref.unitary_err(P) < 1e-10, 'projection is not unitary', 'project')
    # nearest unitary: polar factor, P^dagger A Hermitian positive
    w, s, v = np.linalg.svd(A)
    m.close(P, w @ v, 'projection is not the nearest unitary', 1e-9, 'project')
    m.close(m.call('projection', f, U), U, 'projection changes a unitary', 1e-10, 'project')
    # badly conditioned and badly scaled, but invertible
    s = 10 ** rng.uniform(-4, 4, d) * 10 ** rng.uniform(-6, 6)
    W1, W2 = ref.haar(rng, d), ref.haar(rng, d)
    P = np.asarray(m.call('projection', f, W1 @ np.diag(s) @ W2))
    m.check(ref.unitary_err(P) < 1e-10, 'projection of a badly conditioned matrix is not unitary', 'project', s=s)
    m.close(P, W1 @ W2, 'projection of a badly conditioned matrix is not the nearest unitary', 1e-5, 'project')
    g = getattr(L, '_is_unitary', None)
    if g is not None:
        m.check(g(U) and not g(A + 0.1 * np.eye(d)), 'unitarity test', 'project')
        B = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
        rows = B / np.linalg.norm(B, axis=1)[:, None]
        cols = B / np.linalg.norm(B, axis=0)[None, :]
        ph = np.diag(np.exp(1j * rng.uniform(-3, 3, d)))
        X = U.copy()
        X[:, -1] = X[:, 0]                 # a repeated column
        Y = np.eye(d, dtype=complex)
        Y[0, -1] += 0.01                    # determinant one, not unitary
        Z = np.diag(np.concatenate([[2.0, 0.5], np.ones(d - 2)])).astype(complex) @ U
        for bad, what in ((rows, 'matrix with normalised rows'), (cols, 'matrix with normalised columns'), (X, 'matrix with a repeated column'), (Y, 'shear'), (Z, 'unimodular matrix'), (1.001 * U, 'scaled unitary'), (U + 1e-3 * B, 'perturbed unitary')):
            m.check(not g(bad), 'a %s passes as unitary' % what, 'project')
        for size in (3e-8, 1e-7, 1e-6, 1e-4):        # one entry off by a little more than the tolerance
            i, j = int(rng.integers(d)), int(rng.integers(d))
            X = np.array(ph)
            X[i, j] += size * (1 if i != j else X[i, i] / abs(X[i, i]))
            m.check(not g(X), 'a matrix with one entry off by %g passes as unitary' % size, 'project')
        for size in (1e-9, 1e-12):
            X = np.array(ph)
            X[i, j] += size
            m.check(g(X), 'a matrix within %g of a unitary is reported as not unitary' % size, 'project')
        for good in (ph @ U, np.eye(d, dtype=complex), U[::-1]):
            m.check(g(good), 'a unitary is reported as not unitary', 'project')
    m.key('project', n, case['seed'])
