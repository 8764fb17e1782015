import numpy as np
import scipy.linalg as sla
from .. import ref, gen
from ..mon import snap
from oranssi import circuit_tools

RULE = ('one evaluation = the shifted difference for one (density matrix, involutory generator) compared with i[rho,O]; '
        'distinct = (n, state kind, generator kind, seed); non-trivial when the commutator is not zero.')
NEED = {'commutator': 300, 'zero': 40}


def cases(rng, tier):
    out = []
    for _ in range(700 if tier == 'quick' else 6000):
        n = int(rng.choice([1, 2, 3, 4, 5, 6], p=[0.18, 0.2, 0.2, 0.2, 0.17, 0.05]))
        out.append({'n': n, 'state': ['pure', 'mixed', 'basis', 'max', 'eig', 'func', 'real', 'nearly', 'refill', 'nearpure'][rng.integers(10)],
                    'gen': ['word', 'rotated', 'embedded', 'diag', 'expm'][rng.integers(5)], 'obs': gen.observable(rng, n, maxk=n), 'seed': gen.sub(rng)})
    return out


def run(case, m):
    n = case['n']
    d = 2 ** n
    rng = np.random.default_rng(case['seed'])
    O = ref.obs_matrix(case['obs'], n)
    if case['gen'] == 'rotated':
        V = ref.haar(rng, d)
        O = V @ O @ V.conj().T
        O = (O + O.conj().T) / 2
    elif case['gen'] == 'diag':
        O = np.diag(rng.choice([-1.0, 1.0], size=d)).astype(complex)
    if case['gen'] == 'expm':
        gate = lambda t: sla.expm(-1j * t / 2 * O)
    else:
        gate = lambda t: ref.rot(O, t)
    if case['state'] == 'pure':
        v = ref.haar(rng, d)[:, 0]
        rho = np.outer(v, v.conj())
    elif case['state'] == 'basis':
        rho = np.zeros((d, d), dtype=complex)
        k = rng.integers(d)
        rho[k, k] = 1
    elif case['state'] == 'real':
        v = np.linalg.qr(rng.normal(size=(d, d)))[0][:, 0]
        rho = np.outer(v, v)                      # a real array
    elif case['state'] == 'nearly':                # almost commuting: the commutator is tiny but not zero
        v = np.linalg.eigh(O)[1][:, 0] + 1e-5 * (rng.normal(size=d) + 1j * rng.normal(size=d))
        v = v / np.linalg.norm(v)
        rho = np.outer(v, v.conj())
    elif case['state'] == 'nearpure':              # mixed, but only just; or an almost complete mixture
        v = ref.haar(rng, d)
        e = 10 ** rng.uniform(-9, -2)
        mix = v @ np.diag(np.r_[0.0, rng.dirichlet(np.ones(d - 1))] if d > 1 else [1.0]) @ v.conj().T
        p = np.outer(v[:, 0], v[:, 0].conj())
        rho = (1 - e) * p + e * mix if rng.random() < 0.7 else (1 - e) * np.eye(d) / d + e * p
    elif case['state'] == 'max':
        rho = np.eye(d, dtype=complex) / d
    elif case['state'] == 'eig':
        w, v = np.linalg.eigh(O)
        v = v[:, rng.integers(d)]
        rho = np.outer(v, v.conj())
    elif case['state'] == 'func':
        rho = (np.eye(d) + rng.uniform(-1, 1) * O) / d
    else:
        A = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
        rho = A @ A.conj().T
        rho = rho / np.trace(rho)
    if case['state'] == 'refill':                  # the same array object held another state before
        tmp = np.array(rho)
        rho[...] = np.eye(d) / d
        m.call('parameter-shift commutator', circuit_tools.param_shift_comm, rho, gate)
        rho[...] = tmp
    keep = snap(rho)
    K = m.call('parameter-shift commutator', circuit_tools.param_shift_comm, rho, gate)
    m.check(snap(rho) == keep, 'the density matrix was modified', 'purity')
    want = 1j * ref.comm(rho, O)
    m.close(K, want, 'shifted difference is not i[rho,O]', 1e-11 if case['gen'] != 'expm' else 1e-9, 'commutator', case=case)
    m.close(K, np.asarray(K).conj().T, 'commutator is not Hermitian', 1e-9, 'hermitian')
    m.close(np.trace(K), 0, 'commutator has a trace', 1e-9, 'hermitian')
    if case['state'] in ('max', 'eig', 'func'):
        m.close(K, np.zeros((d, d)), 'commutator of commuting operators does not vanish', 1e-9, 'zero')
    elif np.max(np.abs(want)) > 1e-6:
        m.check(np.max(np.abs(K)) > 1e-7, 'commutator of non-commuting operators vanishes', 'nonzero')
        m.key(n, case['state'], case['gen'], case['seed'])
    m.sample(n=n, obs=case['obs'], state=case['state'], generator=case['gen'], norm=float(np.linalg.norm(K)))
