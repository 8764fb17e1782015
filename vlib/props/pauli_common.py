"""Helpers mapping Pauli objects of the code under test to matrices (via public attributes)."""
import numpy as np
import sympy as sp
from .. import ref
from oranssi import pauli as P

LET = 'IXYZ'
SYM = sp.symbols('x y z')
VAL = {SYM[0]: 0.7312, SYM[1]: -1.219, SYM[2]: 0.377}


SITES = [0, 1, 2, 3, 4]           # rank -> site number used by the objects of the current case, increasing
POOL = [0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 13, 19, 21, 30, 100, 101, 110, 111]


def set_sites(rng, n, plain=0.5):
    """Choose the site numbers of a case (half the cases: 0..n-1)."""
    if rng.random() < plain:
        SITES[:] = range(n)
    else:
        SITES[:] = [POOL[i] for i in sorted(rng.permutation(len(POOL))[:n])]


def rank(alpha):
    return SITES.index(alpha)


def num(c):
    if isinstance(c, sp.Basic):
        return complex(sp.N(c.subs(VAL)))
    return complex(c)


def letter(p):
    return LET[int(p.gamma)]


def mat_pauli(p, N):
    return num(p.coeff) * ref.pauli_word(letter(p), (rank(p.alpha),), N)


def label(mono):
    ps = [mono[i] for i in range(len(mono))]
    return tuple((p.alpha, letter(p)) for p in ps)


def word_matrix(lab, N):
    return ref.pauli_word(''.join(c for _, c in lab), tuple(rank(a) for a, _ in lab), N)


def mat_mono(mono, N):
    lab = label(mono)
    return num(mono.coeff) * word_matrix(lab, N)


def mat_sum(s, N):
    out = np.zeros((2 ** N, 2 ** N), dtype=complex)
    for i in range(len(s)):
        out += mat_mono(s[i], N)
    return out


NUMS = [np.int64, np.uint8, np.int8, np.uint64, np.int32]
COEFFS = [1.0, -1.0, 0.5, 2.0, -0.25, 1j, -1j, 0.5j, 1 + 1j, 0.3 - 0.4j, -2.0 + 0.5j, 1.0 + 0j, 3.0, 1.0 + 1e-7, 1.0 - 1e-10, 1.0 + 1e-9j]


def coeff(rng, symbolic=False):
    if symbolic and rng.random() < 0.5:
        c = SYM[rng.integers(3)]
        r = rng.random()
        if r < 0.3:
            return -1j * c
        if r < 0.5:
            return c * SYM[rng.integers(3)]
        return c
    c = COEFFS[rng.integers(len(COEFFS))]
    return float(c) if isinstance(c, float) else complex(c)


def rand_pauli(rng, site, symbolic=False, ident=True, scale=1.0):
    g = int(rng.integers(0 if ident else 1, 4))
    r = rng.random()
    gamma = LET[g] if r < 0.6 else g if r < 0.85 else NUMS[rng.integers(len(NUMS))](g)
    if rng.random() < 0.4:
        return P.Pauli(SITES[int(site)], gamma)
    c = coeff(rng, symbolic)
    return P.Pauli(SITES[int(site)], gamma, coeff=c if symbolic else c * scale)


def rand_mono(rng, N, symbolic=False, sites=None, scale=1.0):
    if sites is None:
        k = int(rng.integers(1, N + 1))
        sites = rng.permutation(N)[:k]
    else:
        sites = rng.permutation(sites)
    return P.PauliMonomial([rand_pauli(rng, s, symbolic, scale=scale) for s in sites])
