import itertools
import numpy as np
from .. import ref, gen
from ..mon import snap
from oranssi import utils

RULE = ('one evaluation = one basis element (label/matrix/orthogonality/involution) or one norm identity; distinct = '
        '(constructor, n, identity flag, word). The basis is enumerated completely for n<=4 (quick) / n<=5 (thorough).')
NEED = {'label': 450, 'orthogonal': 10, 'norm': 100, 'fresh': 5}


def cases(rng, tier):
    out = []
    nmax = 5
    for ident in (False, True):
        out.append({'kind': 'su2', 'ident': ident})
        out.append({'kind': 'su4', 'ident': ident})
        for n in range(1, nmax + 1):
            out.append({'kind': 'sun', 'n': n, 'ident': ident})
    out.append({'kind': 'sun', 'n': 6, 'ident': False})
    out.append({'kind': 'big', 'n': 6, 'ident': True, 'seed': gen.sub(rng)})
    out.append({'kind': 'big', 'n': 7, 'ident': False, 'seed': gen.sub(rng)})
    out.append({'kind': 'order', 'seed': gen.sub(rng)})
    for _ in range(100 if tier == 'quick' else 1000):
        out.append({'kind': 'norm', 'd': int(rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 64])), 'scale': float(rng.choice([1.0, 1e-9, 1e-4, 1e4, 1e9])), 'seed': gen.sub(rng)})
    return out


def run(case, m):
    if case['kind'] == 'norm':
        return norm(case, m)
    if case['kind'] == 'order':
        return order(case, m)
    if case['kind'] == 'big':
        return large(case, m)
    ident = case['ident']
    n = {'su2': 1, 'su4': 2}.get(case['kind']) or case['n']
    fn = {'su2': utils.get_su_2_operators, 'su4': utils.get_su_4_operators, 'sun': utils.get_su_n_operators}[case['kind']]
    pre = (2 ** n,) if case['kind'] == 'sun' else ()
    ops, names = m.call('building the %d-qubit basis' % n, fn, *pre, identity=ident, return_names=True)
    letters = 'IXYZ' if ident else 'XYZ'
    want = [''.join(w) for w in itertools.product(letters, repeat=n)]
    m.check(len(ops) == len(names) == len(want), 'basis has %d matrices and %d names instead of %d' % (len(ops), len(names), len(want)), 'count', stop=True)
    m.check(sorted(map(str, names)) == sorted(want), 'basis labels are not exactly the Pauli words', 'count', stop=True, names=list(names))
    for op, name in zip(ops, names):
        m.close(op, ref.kron(*[ref.PAULI[c] for c in str(name)]), 'matrix labelled %s is another operator' % name, 1e-12, 'label')
        m.key(case['kind'], n, ident, name)
    G = np.array([np.asarray(o).reshape(-1) for o in ops])
    m.close(G.conj() @ G.T, 2 ** n * np.eye(len(ops)), 'basis elements are not orthogonal', 1e-9, 'orthogonal')
    for op in ops:
        m.close(op @ op, np.eye(2 ** n), 'basis element is not involutory', 1e-10, 'involution')
        m.close(op, np.asarray(op).conj().T, 'basis element is not Hermitian', 1e-12, 'involution')
    if ident:
        # completeness: every operator is reproduced by its expansion
        r = np.random.default_rng(n)
        A = r.normal(size=(2 ** n, 2 ** n)) + 1j * r.normal(size=(2 ** n, 2 ** n))
        co = G.conj() @ A.reshape(-1) / 2 ** n
        m.close((co @ G).reshape(A.shape), A, 'basis does not span all operators', 1e-8, 'orthogonal')
    bare = m.call('building the basis without names', fn, *pre, identity=ident)
    m.check(len(bare) == len(ops), 'basis without names has another length', 'count', stop=True)
    for a, b in zip(bare, ops):
        m.close(a, b, 'basis with and without names differ', 1e-14, 'count')
    m.check(len(fn(*pre)) == 3 ** n, 'default basis is not the one without identity', 'count')
    # fresh results: corrupting one result must not leak into the next
    before = snap([np.asarray(o) for o in ops])
    names_before = list(names)
    for o in ops:
        o *= 0
        o += 7
    names[0] = 'corrupted'
    ops2, names2 = m.call('rebuilding the basis', fn, *pre, identity=ident, return_names=True)
    m.check(snap([np.asarray(o) for o in ops2]) == before and list(names2) == names_before, 'a later basis is corrupted by mutating an earlier one', 'fresh')
    if case['kind'] == 'sun' and n <= 2:
        other = (utils.get_su_2_operators, utils.get_su_4_operators)[n - 1](identity=ident, return_names=True)
        m.check(list(other[1]) == names_before, 'constructors disagree on labels', 'agree')
        for a, b in zip(other[0], ops2):
            m.close(a, b, 'constructors disagree', 1e-12, 'agree')
    m.sample(kind=case['kind'], n=n, identity=ident, first=names_before[:4])


def large(case, m):
    """Registers whose basis is too large for the full set of identities: labels of a sample, and all labels distinct."""
    n, ident = case['n'], case['ident']
    r = np.random.default_rng(case['seed'])
    ops, names = m.call('building the %d-qubit basis' % n, utils.get_su_n_operators, 2 ** n, identity=ident, return_names=True)
    want = [''.join(w) for w in itertools.product('IXYZ' if ident else 'XYZ', repeat=n)]
    m.check(len(ops) == len(want) and sorted(map(str, names)) == sorted(want), 'basis labels are not exactly the Pauli words', 'count', stop=True)
    for i in r.permutation(len(ops))[:400]:
        m.close(ops[i], ref.kron(*[ref.PAULI[c] for c in str(names[i])]), 'matrix labelled %s is another operator' % names[i], 1e-12, 'label', stop=True)
        m.key('big', n, ident, str(names[i]))


def order(case, m):
    """Any sequence of calls with different sizes and flags: each result depends on its own arguments only."""
    r = np.random.default_rng(case['seed'])
    seen = {}
    for _ in range(60):
        k = int(r.integers(4))
        ident, names = bool(r.integers(2)), bool(r.integers(2))
        if k == 0:
            key, got = ('su2', ident), m.call('basis', utils.get_su_2_operators, identity=ident, return_names=names)
        elif k == 1:
            key, got = ('su4', ident), m.call('basis', utils.get_su_4_operators, identity=ident, return_names=names)
        else:
            n = int(r.integers(1, 4))
            key, got = (n, ident), m.call('basis', utils.get_su_n_operators, 2 ** n, identity=ident, return_names=names)
        ops, nm = got if names else (got, None)
        n = {'su2': 1, 'su4': 2}.get(key[0], key[0])
        if nm is None:
            nm = seen.get(key)
        if nm is not None:
            m.check(seen.setdefault(key, list(nm)) == list(nm) and len(ops) == len(nm), 'labels change between calls', 'fresh', stop=True)
            for op, name in zip(ops, nm):
                m.close(op, ref.kron(*[ref.PAULI[c] for c in str(name)]), 'matrix labelled %s is another operator' % name, 1e-12, 'label', stop=True)
        m.key('order', key, names)
        if r.random() < 0.5:
            ops[int(r.integers(len(ops)))][...] = 5
            ops.append(None)


def norm(case, m):
    r = np.random.default_rng(case['seed'])
    d = case['d']
    f = utils.operator_2_norm
    z = case['scale']
    A = z * (r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)))
    B = z * (r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)))
    keep = snap(A)
    a = m.call('norm', f, A)
    m.close(a, np.sqrt(np.sum(np.abs(A) ** 2)), 'norm differs from sqrt(tr R^dagger R)', 1e-10 * d * z, 'norm')
    m.check(np.isrealobj(a) and np.ndim(a) == 0, 'norm is not a real scalar', 'norm', got=a)
    m.close(m.call('norm', f, ref.haar(r, d) @ A @ ref.haar(r, d)), a, 'norm is not unitarily invariant', 1e-10 * d * z, 'norm')
    m.close(m.call('norm', f, 2.5j * A), 2.5 * a, 'norm is not homogeneous', 1e-10 * d * z, 'norm')
    m.check(f(A + B) <= a + f(B) + 1e-10 * d * z, 'norm violates the triangle inequality', 'norm')
    m.close(m.call('norm', f, np.zeros((d, d))), 0.0, 'norm of zero', 1e-12, 'norm')
    m.close(m.call('norm', f, A.real), np.sqrt(np.sum(A.real ** 2)), 'norm of a real matrix', 1e-10 * d * z, 'norm')
    m.check(snap(A) == keep, 'norm modified its argument', 'norm')
    perm = np.eye(d)[r.permutation(d)]
    for what, S in (('complex symmetric', A + A.T), ('antisymmetric', A - A.T), ('Hermitian', A + A.conj().T), ('anti-Hermitian', A - A.conj().T), ('complex diagonal', np.diag(np.diag(A))),
                    ('real symmetric', A.real + A.real.T), ('scaled permutation', z * (0.6 - 0.8j) * perm), ('unitary', z * ref.haar(r, d)), ('single entry', z * 1j * np.eye(d)[:, :1] @ np.eye(d)[d - 1:]),
                    ('Fortran-ordered', np.asfortranarray(A)), ('transposed view', A.T), ('strided', np.kron(A, np.ones((2, 2)))[::2, ::2]), ('integer', np.arange(d * d).reshape(d, d))):
        m.close(m.call('norm', f, S), np.sqrt(np.sum(np.abs(S) ** 2)), 'norm of a %s matrix' % what, 1e-10 * d * max(z, 1.0 if what == 'integer' else z) * (d if what == 'integer' else 1), 'norm')
    # rank-deficient, Hermitian and non-normal arguments, and the same array object refilled
    C = np.outer(A[:, 0], B[0].conj())
    m.close(m.call('norm', f, C), np.linalg.norm(A[:, 0]) * np.linalg.norm(B[0]), 'norm of a rank-one matrix', 1e-9 * d * z * z, 'norm')
    T = np.triu(A, 1)
    m.close(m.call('norm', f, T), np.sqrt(np.sum(np.abs(T) ** 2)), 'norm of a nilpotent matrix', 1e-10 * d * z, 'norm')
    A[...] = B
    m.close(m.call('norm', f, A), np.sqrt(np.sum(np.abs(B) ** 2)), 'norm of a refilled array', 1e-10 * d * z, 'norm')
    m.key('norm', d, z)
