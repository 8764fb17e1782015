import numpy as np
from .. import ref, gen
from oranssi import plot_utils

RULE = ('one evaluation = one angle pair or state converted and compared with Bloch-vector geometry; distinct = (regime, '
        'rounded angles); non-trivial: all (poles, branch cut and rounding-level neighbourhoods are separate regimes).')
NEED = {'state': 3000, 'angles': 3000, 'roundtrip': 3000, 'pole': 500, 'cut': 300, 'rejections': 60}
CHUNK = 4
REG = ['generic', 'pole', 'cut', 'noisy', 'grid', 'wrap', 'vector']


def cases(rng, tier):
    return [{'reg': REG[i % len(REG)], 'count': 120 if tier == 'quick' else 600, 'seed': gen.sub(rng)} for i in range(56 if tier == 'quick' else 210)] + [{'reg': 'reject', 'seed': gen.sub(rng), 'count': 1}]


def bloch(rho):
    return np.array([np.trace(rho @ s).real for s in (ref.PX, ref.PY, ref.PZ)])


def run(case, m):
    rng = np.random.default_rng(case['seed'])
    reg = case['reg']
    if reg == 'reject':
        for t in (0.0, 0.5, 2.0, 1.1, 0.9, -1.0, 1.001):
            for _ in range(9):
                a = ref.haar(rng, 2)
                rho = t * np.outer(a[:, 0], a[:, 0].conj())
                m.rejects('a matrix of trace %s' % t, plot_utils.state_to_spherical, rho)
        m.key('reject')
        return
    for _ in range(case['count']):
        phi, theta = rng.uniform(0, 2 * np.pi), rng.uniform(0, np.pi)
        if reg == 'pole':
            theta = [0.0, np.pi, 1e-12, 1e-9, 1e-6, np.pi - 1e-9, np.pi - 1e-6, 1e-4][rng.integers(8)]
        elif reg == 'cut':
            phi = [0.0, 2 * np.pi, np.pi, 1e-12, -1e-12, 2 * np.pi - 1e-9, 1e-4, -1e-4, np.pi / 2, 3 * np.pi / 2, 2 * np.pi - 2e-3, 1e-2, -1e-2, np.pi + 1e-9][rng.integers(14)]
        elif reg == 'grid':
            phi, theta = rng.integers(0, 9) * np.pi / 4, rng.integers(0, 9) * np.pi / 8
        elif reg == 'wrap':
            phi, theta = rng.uniform(-20, 20), rng.uniform(-20, 20)
        rho = np.asarray(m.call('spherical_to_state', plot_utils.spherical_to_state, phi, theta))
        want = np.array([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)])
        m.check(rho.shape == (2, 2), 'shape', 'state', stop=True)
        m.close(bloch(rho), want, 'Bloch vector of (phi=%r, theta=%r)' % (phi, theta), 1e-9, 'state', stop=True)
        m.close(rho, rho.conj().T, 'not Hermitian', 1e-12, 'state')
        m.close(np.trace(rho), 1, 'trace', 1e-12, 'state')
        m.close(rho @ rho, rho, 'not pure', 1e-9, 'state')
        if reg == 'noisy':
            rho = rho + 1e-15 * (rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2)))
            rho = rho / np.trace(rho)
        elif reg == 'vector':
            v = ref.haar(rng, 2)[:, 0] if rng.random() < 0.5 else np.array([[1, 0], [0, 1], [1, 1e-9], [1e-9, 1j], [1, -1], [1, -1j], [1, 1 - 1e-12j]][rng.integers(7)], dtype=complex)
            # products of many rotations leave rounding errors in the density matrix
            rho = np.outer(v, v.conj()) / np.vdot(v, v)
            for _ in range(int(rng.integers(0, 12))):
                u = ref.rot([ref.PX, ref.PY, ref.PZ][rng.integers(3)], [np.pi / 2, np.pi, 2 * np.pi / 3][rng.integers(3)])
                rho = u @ rho @ u.conj().T
            rho = rho * (1 + [0, 2e-16, 4e-16, -2e-16][rng.integers(4)])
        elif reg == 'pole':
            rho = rho * (1 + [0, 2.3e-16, 4.5e-16, 1e-15][rng.integers(4)])
        keep = rho.copy()
        p, t = m.call('state_to_spherical', plot_utils.state_to_spherical, rho)
        p, t = float(p), float(t)
        m.check(np.isfinite(p) and np.isfinite(t), 'angles of %s are not finite' % rho.tolist(), 'angles', stop=True, got=(p, t))
        m.check(-1e-12 <= t <= np.pi + 1e-12 and -1e-12 <= p < 2 * np.pi, 'angles out of range', 'angles', stop=True, got=(p, t))
        got = np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])
        m.close(got, bloch(rho), 'angles do not reproduce the state', 1.2e-3, 'roundtrip', stop=True, phi=p, theta=t)
        if not (p == 0.0 or t == 0.0 or abs(t - np.pi) < 1e-3):
            m.close(got, bloch(rho), 'angles do not reproduce the state (away from the snapping region)', 1e-6, 'roundtrip', stop=True, phi=p, theta=t)
        m.check(np.array_equal(rho, keep), 'state modified', 'angles')
        if reg in ('pole', 'cut'):
            m.event(reg)
        m.key(reg, round(phi, 3), round(theta, 3))
    m.sample(regime=reg, phi=phi, theta=theta, back=[p, t])
