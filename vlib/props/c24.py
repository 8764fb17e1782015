import itertools
import numpy as np
from .. import ref, gen
from .pauli_common import *

RULE = ('one evaluation = one pair or triple of objects on which equality, hash, set/dict behaviour and ordering are '
        'compared with the specified keys; distinct = (labels, coefficient classes) of the pair; non-trivial when the two '
        'objects share their word.')
NEED = {'pauli_eq': 1000, 'eq': 3000, 'hash': 800, 'lt': 3000, 'transitive': 3000, 'sort': 100, 'sets': 100, 'rejections': 100}


def cases(rng, tier):
    big = tier != 'quick'
    return [{'len': int(rng.integers(1, 5)) if rng.random() < 0.8 else int(rng.integers(5, 13)), 'count': 12, 'seed': gen.sub(rng)} for _ in range(8000 if big else 900)]


CO = [1.0, -1.0, 0.5, -0.25, 2.0, 1j, -1j, 0.5j, 2j, 1 + 1j, 1 - 1j, -1 + 0.5j, 0.3 - 0.4j, 1 + 1e-12j, 1 + 1e-14j, 0.5 - 1e-16j, 1e-14 + 1j, 1e-9, -1e-9, 1e-9j, 1e6, -1e6j, 0.1 + 0.2, 0.3]


def lookalikes():
    """Pairs of different (sites, word) whose digits and letters, written one after the other, read the same."""
    nums = [1, 2, 11, 12, 21, 22, 111, 112, 121, 122]
    fams = {}
    for k in (2, 3):
        for sites in itertools.combinations(nums, k):
            for w in itertools.product((1, 2), repeat=k):
                for tag, text in (('ag', ''.join('%d%d' % x for x in zip(sites, w))), ('ga', ''.join('%d%d' % x for x in zip(w, sites))),
                                  ('g+a', str(w) + ''.join(map(str, sites))), ('a+g', ''.join(map(str, sites + w)))):
                    fams.setdefault((k, tag, text), []).append((sites, w))
    return [v for _, v in sorted(fams.items()) if len(v) > 1]


ALIKE = lookalikes()


def change(rng, w):
    i = int(rng.integers(len(w)))
    return w[:i] + 'IXYZ'[rng.integers(4)] + w[i + 1:]


def isreal(c):
    return complex(c).imag == 0


def run(case, m):
    rng = np.random.default_rng(case['seed'])
    k = case['len']
    base = [0, 1, 2] if rng.random() < 0.5 else [POOL[i] for i in rng.permutation(len(POOL))[:3]]
    if k < 5:
        big = [0, 1, 2, 3, 4] if rng.random() < 0.5 else sorted([POOL[i] for i in rng.permutation(len(POOL))[:5]])
    else:
        big = list(range(k + 1)) if rng.random() < 0.5 else sorted(int(x) for x in rng.permutation(3 * k)[:k + 1])
    # Paulis
    ps = [P.Pauli(int(base[rng.integers(3)]), int(rng.integers(4)), coeff=complex(CO[rng.integers(len(CO))])) for _ in range(10)]
    ks = [(p.alpha, int(p.gamma)) for p in ps]
    for a, ka in zip(ps, ks):
        for b, kb in zip(ps, ks):
            e = m.call('comparing Paulis', lambda: a == b)
            m.check(bool(e) == (ka == kb), '%r == %r is %s' % (a, b, e), 'pauli_eq', stop=True)
            m.check(bool(a != b) == (not e), '!= contradicts ==', 'pauli_eq')
            if ka == kb:
                m.check(hash(a) == hash(b), 'equal Paulis %r, %r hash differently' % (a, b), 'hash', stop=True)
                m.key('pauli', ka, a.coeff, b.coeff)
    m.check(len(set(ps)) == len(set(ks)), 'set of Paulis', 'sets', stop=True, got=len(set(ps)), want=len(set(ks)))
    d = {p: i for i, p in enumerate(ps)}
    m.check(all(d[P.Pauli(a, g, coeff=3.0)] == max(i for i, x in enumerate(ks) if x == (a, g)) for a, g in ks), 'dictionary lookup of a Pauli', 'sets', stop=True)
    fam = ALIKE[rng.integers(len(ALIKE))]
    alike = [P.PauliMonomial([P.Pauli(a, g) for a, g in zip(*f)]) for f in fam]
    for i, a in enumerate(alike):
        for j, b in enumerate(alike):
            m.check(bool(m.call('comparing monomials', lambda: a == b)) == (i == j), '%r == %r although the sites differ' % (a, b), 'eq', stop=True, sites=[fam[i][0], fam[j][0]])
    m.check(len(set(alike)) == len(fam), 'set of monomials on different sites', 'sets', stop=True)
    # monomials of equal length on few sites, words and coefficients: many coincidences
    words = [''.join('IXYZ'[rng.integers(4)] for _ in range(k)) for _ in range(2)]
    near = rng.random() < 0.5           # words that differ in one letter
    if near:
        words[1] = change(rng, words[0])
    objs, keys, order = [], [], []
    for _ in range(case['count']):
        w = words[rng.integers(2)] if rng.random() < 0.8 else change(rng, words[0]) if near else ''.join('IXYZ'[rng.integers(4)] for _ in range(k))
        sites = big[:k] if rng.random() < 0.8 else [big[x] for x in sorted(rng.permutation(len(big))[:k])]
        c = complex(CO[rng.integers(len(CO))])
        fac = [P.Pauli(s, g) for s, g in zip(sites, w)]
        fac[int(rng.integers(k))].coeff *= c
        mono = P.PauliMonomial([fac[i] for i in rng.permutation(k)])
        if rng.random() < 0.3:          # same object obtained through an operation
            mono = mono * P.PauliMonomial([P.Pauli(s, 'I') for s in sites])
        objs.append(mono)
        cc = complex(mono.coeff)
        keys.append((tuple(sites), w, isreal(cc)))
        order.append(([LET.index(x) for x in w], isreal(cc), cc.real + cc.imag))
    L = {}
    for i, a in enumerate(objs):
        for j, b in enumerate(objs):
            e = m.call('comparing monomials', lambda: a == b)
            m.check(bool(e) == (keys[i] == keys[j]), '%r == %r is %s' % (a, b, e), 'eq', stop=True)
            if keys[i] == keys[j]:
                m.check(hash(a) == hash(b), 'equal monomials %r, %r hash differently' % (a, b), 'hash', stop=True)
            lt = bool(m.call('ordering monomials', lambda: a < b))
            L[i, j] = lt
            oa, ob = order[i], order[j]
            if oa[:2] != ob[:2] or abs(oa[2] - ob[2]) > 1e-13 * (abs(oa[2]) + abs(ob[2])):
                m.check(lt == (oa < ob), '%r < %r is %s' % (a, b, lt), 'lt', stop=True)
            elif i == j:
                m.check(not lt, 'ordering is not irreflexive', 'lt', stop=True)
            if keys[i][1] == keys[j][1]:
                m.key(keys[i], keys[j], complex(a.coeff), complex(b.coeff))
    n = len(objs)
    for i in range(n):
        for j in range(n):
            m.check(not (L[i, j] and L[j, i]), 'ordering is not antisymmetric', 'lt', stop=True)
            for l in range(n):
                if L[i, j]:
                    m.event('transitive')
                    if L[j, l]:
                        m.check(L[i, l], 'ordering is not transitive', 'transitive', stop=True, objs=[repr(objs[x]) for x in (i, j, l)])
                    elif not L[l, j]:
                        m.check(L[i, l], 'incomparability is not transitive', 'transitive', stop=True, objs=[repr(objs[x]) for x in (i, j, l)])
    first = None
    for _ in range(4):
        perm = rng.permutation(n)
        s = m.call('sorting', sorted, [objs[i] for i in perm])
        seq = [(label_word(x), isreal(complex(x.coeff)), float('%.12g' % (complex(x.coeff).real + complex(x.coeff).imag))) for x in s]
        if first is None:
            first = seq
        m.check(seq == first, 'sorting depends on the input order', 'sort', stop=True)
    m.check(len(set(objs)) == len(set(keys)), 'set of monomials', 'sets', stop=True, got=len(set(objs)), want=len(set(keys)))
    other = P.PauliMonomial([P.Pauli(s, 'X') for s in range(k + 1)])
    m.rejects('== between monomials of different length', lambda: objs[0] == other)
    m.rejects('== between monomials of different length', lambda: other == objs[-1])
    m.sample(words=words, sorted=[repr(x) for x in s][:6])


def label_word(x):
    return ''.join(c for _, c in label(x))
