import importlib.util
import itertools
import os
import numpy as np
from .. import ref, gen
from oranssi import pauli

RULE = ('one evaluation = one node or edge decision of a commutator closure (run to its fixed point on the real symbolic algebra) against '
        'the closure computed on bit vectors; distinct = (generator set); non-trivial when some pair of generators does not commute.')
NEED = {'closed': 60, 'node': 1500, 'edge': 1500, 'own': 60, 'depth': 25}


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    W = [''.join(w) for w in itertools.product('IXYZ', repeat=3)]
    for _ in range(300 if big else 60):
        k = int(rng.choice([1, 2, 3, 4, 5, 6], p=[0.05, 0.2, 0.25, 0.2, 0.2, 0.1]))
        out.append({'kind': 'graph', 'gens': [W[i] for i in rng.choice(64, k, replace=False)], 'imag': [bool(x) for x in rng.random(k) < 0.2]})
    out.append({'kind': 'su8', 'part': 'all', 'gens': [], 'imag': []})
    for _ in range(10 if big else 3):
        out.append({'kind': 'su8', 'part': [int(x) for x in rng.choice(9, 2)], 'gens': [], 'imag': []})
    for _ in range(150 if big else 40):
        k = int(rng.choice([2, 3], p=[0.8, 0.2]))
        out.append({'kind': 'digraph', 'gens': [W[i] for i in rng.choice(64, k, replace=False)], 'imag': [False] * k})
    for _ in range(400 if big else 80):
        n = int(rng.integers(1, 5))
        k = int(rng.integers(1, 5))
        V = [''.join(rng.choice(list('IXYZ'), n)) for _ in range(k)]
        V = sorted(set(V))
        out.append({'kind': 'own', 'gens': V, 'imag': [bool(x) for x in rng.random(len(V)) < 0.3], 'sites': [int(s) for s in rng.choice(12, n, replace=False)], 'cap': 300 if n < 4 else 120})
    return out


_MOD = []


def module():
    if not _MOD:
        base = os.path.dirname(os.path.dirname(os.path.abspath(pauli.__file__)))
        spec = importlib.util.spec_from_file_location('algebra_graphs', os.path.join(base, 'experiments_paper', 'algebra_graphs.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _MOD.append(mod)
    return _MOD[0]


MULT = {}
for a in 'IXYZ':
    for b in 'IXYZ':
        MULT[a, b] = a if b == 'I' else b if a == 'I' else 'I' if a == b else (set('XYZ') - {a, b}).pop()


def comm(a, b):
    """Word and real/imaginary type of the commutator of two (word, imaginary?) pairs; None when they commute."""
    anti = sum(x != y and 'I' not in (x, y) for x, y in zip(a[0], b[0])) % 2
    if not anti:
        return None
    return ''.join(MULT[x, y] for x, y in zip(a[0], b[0])), not (a[1] ^ b[1])


def closure(gens, cap=10 ** 9):
    S = set(gens)
    new = set(S)
    while new and len(S) <= cap:
        fresh = set()
        for a in new:
            for b in S:
                c = comm(a, b)
                if c is not None and c not in S:
                    fresh.add(c)
        S |= fresh
        new = fresh
    return S


def mono(w, sites, imag=False):
    ps = [pauli.Pauli(s, 'IXYZ'.index(c)) for s, c in zip(sites, w)]
    p = pauli.PauliMonomial(ps)
    hash(p)
    if imag:
        p.coeff = p.coeff * 1j
    return p


def read(m, p, sites):
    by = {q.alpha: q.gamma for q in p.monomial}
    m.check(sorted(by) == sorted(sites), 'a commutator acts on other sites', 'node', stop=True)
    c = complex(p.coeff)
    m.check(abs(abs(c) - 1) < 1e-9 and min(abs(c.real), abs(c.imag)) < 1e-9, 'half a commutator of unit words is not a unit word', 'node', stop=True, coeff=str(p.coeff))
    return ''.join('IXYZ'[by[s]] for s in sites), abs(c.imag) > 0.5


def run(case, m):
    gens = list(case['gens'])
    if case['kind'] == 'own':
        return own(case, m)
    mod = m.call('importing the closure code', module)
    sites = [0, 1, 2]
    if case['kind'] == 'su8':
        A, B = m.call('building the two local algebras', mod.SU4_to_SU8_algebra)
        for part, at in ((A, (0, 1)), (B, (1, 2))):
            words = sorted(read(m, p, sites) for p in part)
            m.check(words == sorted((''.join(dict(zip(at, w)).get(s, 'I') for s in sites), False) for w in itertools.product('XYZ', repeat=2)), 'a local algebra is not the nine two-qubit words', 'node', stop=True)
        objs = A + B if case['part'] == 'all' else [A[case['part'][0]], B[case['part'][1]]]
        case = dict(case, kind='graph' if case['part'] == 'all' else 'digraph', gens=[read(m, p, sites)[0] for p in objs], imag=[False] * len(objs))
        gens = case['gens']
    else:
        objs = [mono(w, sites, i) for w, i in zip(gens, case['imag'])]
    want = closure(zip(gens, case['imag']))
    if case['kind'] == 'graph':
        G = m.call_terminates('closing the algebra', 200, mod.generate_product_algebra_graph, objs)
        nodes = list(G.nodes)
        got = [read(m, p, sites) for p in nodes]
        m.check(len(set(got)) == len(got), 'a word occurs twice in the closure', 'node', stop=True)
        unit = ('III', False)        # the vanishing commutator of a word with itself hangs on the identity
        m.check(set(got) - {unit} == want - {unit}, 'the closure is not the algebra the words generate', 'closed', stop=True, missing=[str(x) for x in sorted(want - set(got))[:4]], extra=[str(x) for x in sorted(set(got) - want)[:4]])
        edges = {frozenset((read(m, a, sites), read(m, b, sites))) for a, b in G.edges if unit not in (read(m, a, sites), read(m, b, sites))}
        exp = set()
        for a in want:
            for b in want:
                c = comm(a, b)
                if c is not None:
                    exp.add(frozenset((a, c)))
                    exp.add(frozenset((b, c)))
        m.event('edge', len(exp))
        m.check(edges == exp, 'the graph does not join the words to their commutators', 'edge', missing=len(exp - edges), extra=len(edges - exp))
    else:
        G = m.call_terminates('closing the algebra', 200, mod.generate_product_algebra_digraph, objs)
        nodes = list(G.nodes)
        got = [read(m, p, sites) for p in nodes]
        m.check(len(set(got)) == len(got) and set(got) == want, 'the directed closure is not the algebra the words generate', 'closed', stop=True, missing=[str(x) for x in sorted(want - set(got))[:4]], extra=[str(x) for x in sorted(set(got) - want)[:4]])
        # depth: number of rounds of commutators after which a word first appears
        S = set(zip(gens, case['imag']))
        depth = {g: 0 for g in S}
        d = 0
        while True:
            d += 1
            new = {c for a in S for b in S for c in [comm(a, b)] if c is not None} - set(depth)
            if not new:
                break
            depth.update({c: d for c in new})
            S = set(depth)
        for p in nodes:
            m.check(G.nodes[p]['depth'] == depth[read(m, p, sites)], 'a word has the wrong depth', 'depth', stop=True)
    if len(want) > len(gens):
        m.key(case['kind'], gens, case['imag'])
    m.sample(generators=gens, closure=len(want))


def own(case, m):
    """The same closure driven directly on the symbolic algebra: sets, hashing, equality and commutators together."""
    gens, sites = case['gens'], case['sites']
    start = list(zip(gens, case['imag']))
    want = closure(start, case['cap'])
    full = closure(start) == want
    S = set(mono(g, sites, i) for g, i in start)
    m.check(len(S) == len(gens), 'distinct words collapse in a set', 'own', stop=True)
    new = list(S)
    while new and len(S) <= case['cap']:
        fresh = set()
        for a in new:
            for b in list(S):
                c = m.call('commutator', a.commutator, b)
                if abs(complex(c.coeff)) > 1e-12:
                    c.coeff = c.coeff * 0.5
                    if c not in S:
                        fresh.add(c)
        S |= fresh
        new = list(fresh)
    got = [read(m, p, sites) for p in S]
    m.check(len(set(got)) == len(got) and set(got) == want, 'the set of commutators is not the algebra the words generate', 'own', stop=True, got=len(got), want=len(want))
    for p, g in zip(S, got):
        m.check(p in S and mono(g[0], sites, g[1]) in S, 'a word is not found in the set that contains it', 'node')
    if len(want) > len(gens):
        m.key('own', gens, sites, full)
