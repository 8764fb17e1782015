import numpy as np
from .. import ref, gen
from .pauli_common import *

RULE = ('one evaluation = one sum/difference/product/scaling/construction compared with the matrix operation, or one live '
        'object re-read after an operation on others; operands are reused and results fed back; distinct = (operation, '
        'terms of the operands); non-trivial when terms merge, cancel or an operand is reused.')
NEED = {'construct': 300, 'add': 500, 'sub': 500, 'mul': 300, 'scale': 150, 'frozen': 3000, 'canonical': 300, 'merge': 150, 'cancel': 40}


def cases(rng, tier):
    big = tier != 'quick'
    return [{'sites': int(rng.choice([1, 2, 3, 4], p=[.3, .32, .32, .06])), 'partial': bool(rng.random() < 0.2), 'coeffs': ['real', 'imag', 'mixed'][rng.integers(3)], 'ops': 20, 'seed': gen.sub(rng)} for _ in range(8000 if big else 800)] + [{'wide': True, 'sites': int(rng.integers(1, 4)), 'seed': gen.sub(rng)} for _ in range(600 if big else 80)] + [{'long': True, 'sites': int(rng.integers(3, 9)), 'seed': gen.sub(rng)} for _ in range(300 if big else 30)] + [{'reject': True}]


REAL = [1.0, -1.0, 0.5, -0.5, 2.0, 0.25, -3.0]


def mono(rng, N, kind, k):
    sites = rng.permutation(N)[:k]
    ps = [P.Pauli(SITES[int(s)], LET[rng.integers(4)]) for s in sites]
    c = REAL[rng.integers(len(REAL))]
    if kind == 'imag':
        c = 1j * c
    elif kind == 'mixed':
        c = coeff(rng) if rng.random() < 0.5 else [1 + 1j, 1 - 1j, -1 + 1j, 2 - 1j, 2.0, -1.0, 1j][rng.integers(7)]
    k = int(rng.integers(len(ps)))
    ps[k] = P.Pauli(ps[k].alpha, ps[k].gamma, coeff=c)
    return P.PauliMonomial(ps)


def close(m, got, want, msg, kind, **kw):
    return m.close(got, want, msg, 1e-6 * max(1.0, float(np.max(np.abs(want)))), kind, stop=True, **kw)


def run(case, m):
    if case.get('reject'):
        for bad in ([P.Pauli(0, 'X')], ['X'], [3], [P.PauliMonomial([P.Pauli(0, 'X')]), P.PauliMonomial([P.Pauli(0, 'X'), P.Pauli(1, 'X')])]):
            m.rejects('a sum of %r' % (bad,), P.PauliSum, bad)
            m.key('reject', repr(bad))
        s = P.PauliSum([P.PauliMonomial([P.Pauli(0, 'X')])])
        for bad in ('2', None, [1.0]):
            m.rejects('scaling with %r' % (bad,), s.scalar_mul, bad)
        return
    if case.get('wide'):
        return wide(case, m)
    if case.get('long'):
        return long(case, m)
    N, kind = case['sites'], case['coeffs']
    rng = np.random.default_rng(case['seed'])
    set_sites(rng, N)
    k0 = N if not case['partial'] else max(1, N - int(rng.integers(1, 3)))     # factors per term: all sites, or any of them
    monos = [mono(rng, N, kind, k0) for _ in range(int(rng.choice([3, 4, 5, 6, 7, 14])))]
    mmats = [mat_mono(x, N) for x in monos]
    sums, smats = [], []

    def frozen(what):
        for x, M in zip(monos, mmats):
            close(m, mat_mono(x, N), M, '%s changed a monomial' % what, 'frozen', obj=repr(x))
        for x, M in zip(sums, smats):
            close(m, mat_sum(x, N), M, '%s changed another sum' % what, 'frozen')

    def admit(s, want, kind_, what, pure):
        close(m, mat_sum(s, N), want, what, kind_)
        terms = [label(s[i]) for i in range(len(s))]
        if pure:
            m.check(len(set(terms)) == len(terms), 'a sum with repeated terms after %s' % what, 'canonical', stop=True, terms=terms)
        else:                   # terms that compare equal are one term
            try:
                same = [(x, y) for x in range(len(s)) for y in range(x) if s[x] == s[y]] if len(s) <= 14 and k0 == N or case['sites'] == 1 else []
            except AssertionError:
                same = []
            m.check(not same, 'a sum with equal terms after %s' % what, 'canonical', stop=True, terms=[repr(s[i]) for i in range(len(s))])
        frozen(what)
        if np.max(np.abs(want)) < 1e3 and len(s) <= 24:
            sums.append(s)
            smats.append(want)
            if len(sums) > 6:
                k = int(rng.integers(len(sums)))
                del sums[k]
                del smats[k]

    pure = kind != 'mixed'
    for _ in range(3):
        idx = [int(x) for x in rng.integers(len(monos), size=int(rng.integers(1, 7)))]
        if len(set(idx)) < len(idx):
            m.event('merge')
        s = m.call('building a sum', P.PauliSum, [monos[i] for i in idx])
        admit(s, sum(mmats[i] for i in idx), 'construct', 'building a sum', pure)
        m.key('build', sorted(labelkey(monos[i]) for i in idx))
    ispure = {id(s): pure for s in sums}
    for step in range(case['ops']):
        if not sums:
            break
        i, j = int(rng.integers(len(sums))), int(rng.integers(len(sums)))
        a, b, A, B = sums[i], sums[j], smats[i], smats[j]
        pa = ispure.get(id(a), False) and ispure.get(id(b), False)
        if i == j:
            m.event('merge')
        r = rng.random()
        if r < 0.3:
            c = m.call('adding', lambda: a + b)
            admit(c, A + B, 'add', 'adding', pa)
            op = '+'
        elif r < 0.6:
            c = m.call('subtracting', lambda: a - b)
            if i == j:
                m.event('cancel')
                if pa:
                    m.check(len(c) == 0, 'cancelled terms are kept', 'cancel', stop=True, terms=len(c))
            admit(c, A - B, 'sub', 'subtracting', pa)
            op = '-'
        elif r < 0.8:
            if len(a) * len(b) > 60 or k0 < N:
                continue
            c = m.call('multiplying', lambda: a * b)
            admit(c, A @ B, 'mul', 'multiplying', False)
            pa = False
            op = '*'
        else:
            z = [2, -1, 0.5, 1j, -1 + 0.5j, 3][rng.integers(6)]
            m.call('scaling', a.scalar_mul, z)
            smats[i] = z * A
            close(m, mat_sum(a, N), z * A, 'scaling by %s' % z, 'scale')
            frozen('scaling a sum')
            if isinstance(z, complex):
                ispure[id(a)] = False
            m.key('scale', z, len(a))
            continue
        ispure[id(c)] = pa
        keepalive.append(c)
        m.key(op, [labelkey(a[k]) for k in range(min(len(a), 4))], [labelkey(b[k]) for k in range(min(len(b), 4))])
    del keepalive[:]
    m.sample(sites=N, coeffs=kind, last=[repr(sums[-1][k]) for k in range(len(sums[-1]))] if sums else [])


keepalive = []


def wide(case, m):
    """Coefficients over many orders of magnitude: every term is compared on its own scale."""
    rng = np.random.default_rng(case['seed'])
    N = case['sites']
    set_sites(rng, N)
    unit = [1.0, 1j][rng.integers(2)]
    allw = [tuple(int(x) for x in w) for w in np.ndindex(*[4] * N)]
    pick = [allw[i] for i in rng.choice(len(allw), min(len(allw), int(rng.integers(2, 7))), replace=False)]

    def term(w, c):
        ps = [P.Pauli(SITES[i], g) for i, g in enumerate(w)]
        ps[0] = P.Pauli(SITES[0], w[0], coeff=c * unit)
        return P.PauliMonomial(ps)

    def terms(s):
        out = {}
        for i in range(len(s)):
            x = s[i]
            by = {q.alpha: q.gamma for q in x.monomial}
            out.setdefault(tuple(by[a] for a in SITES[:N]), []).append(complex(x.coeff))
        return out

    def expect(s, want, what):
        got = terms(s)
        for w, c in want.items():
            if abs(c) < 3e-8:
                continue                # may count as cancelled
            m.check(len(got.get(w, [])) == 1 and abs(got[w][0] - c * unit) <= 1e-9 * abs(c), '%s: the term of coefficient %g is %s' % (what, c, got.get(w)), 'construct', stop=True)
            m.event('canonical')
        m.check(all(max(map(abs, v)) < 1e-5 for w, v in got.items() if w not in want), '%s: unexpected terms' % what, 'construct')
    sums = []
    for _ in range(2):
        want, ts = {}, []
        for w in pick + [pick[int(rng.integers(len(pick)))] for _ in range(int(rng.integers(3)))]:
            c = float(rng.choice([-1, 1])) * float(rng.uniform(1, 9)) * 10.0 ** int(rng.integers(-7, 8))
            if w in want and abs(c + want[w]) < 1e-3 * max(abs(c), abs(want[w])):
                continue
            want[w] = want.get(w, 0.0) + c
            ts.append(term(w, c))
        s = m.call('building a sum', P.PauliSum, ts)
        expect(s, want, 'building a sum')
        sums.append((s, want))
        m.key('wide', sorted(map(str, want)), len(ts))
    (a, A), (b, B) = sums
    if all(abs(A.get(w, 0) + s * B.get(w, 0)) > 1e-3 * max(abs(A.get(w, 0)), abs(B.get(w, 0))) for w in set(A) | set(B) for s in (1, -1)):
        expect(m.call('adding', lambda: a + b), {w: A.get(w, 0) + B.get(w, 0) for w in set(A) | set(B)}, 'adding')
        expect(m.call('subtracting', lambda: a - b), {w: A.get(w, 0) - B.get(w, 0) for w in set(A) | set(B)}, 'subtracting')
    expect(a, A, 'after other operations')
    expect(b, B, 'after other operations')


def long(case, m):
    """Sums of many terms that merge into few, and products of them; judged term by term, without matrices."""
    rng = np.random.default_rng(case['seed'])
    N = case['sites']
    set_sites(rng, N)
    unit = [1.0, 1j][rng.integers(2)]

    def words(letters, k):
        return [tuple(int(letters[i]) for i in w) for w in {tuple(x) for x in rng.integers(len(letters), size=(k, N))}]

    def term(w, c):
        ps = [P.Pauli(SITES[i], g) for i, g in enumerate(w)]
        k = int(rng.integers(N))
        ps[k] = P.Pauli(SITES[k], w[k], coeff=c)
        return P.PauliMonomial([ps[i] for i in rng.permutation(N)])

    def build(pool, k):
        want, ts = {}, []
        for _ in range(k):
            w, c = pool[rng.integers(len(pool))], float(rng.integers(-4, 5) or 1)
            want[w] = want.get(w, 0.0) + c
            ts.append(term(w, c * unit))
        s = m.call('building a sum of %d terms' % k, P.PauliSum, ts)
        judge(s, want, unit, 'building a sum of %d terms' % k)
        return s, want

    def judge(s, want, u, what):
        got = {}
        for i in range(len(s)):
            by = {q.alpha: q.gamma for q in s[i].monomial}
            w = tuple(by[a] for a in SITES[:N])
            m.check(w not in got, 'repeated terms after %s' % what, 'canonical', stop=True)
            got[w] = complex(s[i].coeff)
        want = {w: c * u for w, c in want.items() if abs(c) > 1e-9}
        m.check(set(got) == set(want) and all(abs(got[w] - want[w]) < 1e-9 for w in want), '%s gives other terms' % what, 'construct', stop=True)

    pool = words([0, 1, 2, 3], int(rng.integers(3, 13)))
    a, A = build(pool, int(rng.integers(5, 90)))
    b, B = build(pool, int(rng.integers(5, 130)))
    judge(m.call('adding', lambda: a + b), {w: A.get(w, 0) + B.get(w, 0) for w in set(A) | set(B)}, unit, 'adding')
    judge(m.call('subtracting', lambda: a - b), {w: A.get(w, 0) - B.get(w, 0) for w in set(A) | set(B)}, unit, 'subtracting')
    g = int(rng.integers(1, 4))
    a, A = build(words([0, g], 14), int(rng.integers(5, 40)))       # one letter only: products stay real multiples
    b, B = build(words([0, g], 14), int(rng.integers(5, 40)))
    if A and B:
        want = {}
        for v, c in A.items():
            for w, d in B.items():
                x = tuple(p ^ q for p, q in zip(v, w))
                want[x] = want.get(x, 0.0) + c * d
        if len(a) and len(b):
            judge(m.call('multiplying', lambda: a * b), want, unit * unit, 'multiplying sums of %d and %d terms' % (len(a), len(b)))
            m.event('merge')
            m.event('mul')
    judge(a, A, unit, 'other operations (left operand)')
    judge(b, B, unit, 'other operations (right operand)')
    m.key('long', N, len(A), len(B))


def labelkey(x):
    return ''.join(c for _, c in label(x))
