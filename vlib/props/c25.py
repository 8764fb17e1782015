import itertools
import random
import networkx as nx
import numpy as np
from .. import gen
from ..mon import snap
from oranssi import circuit_tools, edge_coloring

RULE = ('one evaluation = one selection (or colouring) on a recorded graph and random state judged edge by edge; distinct = '
        '(graph, orientation, order); non-trivial when at least two edges share a qubit.')
NEED = {'selection': 800, 'overlapping': 500, 'disjoint_input': 50, 'colouring': 300, 'success': 150}
LIMIT = 150


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for n in (2, 3, 4):         # all graphs on up to 4 vertices
        es = list(itertools.combinations(range(n), 2))
        for r in range(1, len(es) + 1):
            for sub in itertools.combinations(es, r):
                out.append({'kind': 'set', 'edges': [list(e) for e in sub], 'seed': gen.sub(rng)})
    for _ in range(20000 if big else 1500):
        out.append({'kind': 'set', 'edges': graph(rng), 'seed': gen.sub(rng)})
    for _ in range(2000 if big else 200):
        qs = [int(x) for x in rng.permutation(9)]
        k = int(rng.integers(1, 10))
        out.append({'kind': 'set', 'edges': [[q] for q in qs[:k]] if rng.random() < 0.5 else [qs[2 * i:2 * i + 2] for i in range(max(1, k // 2))], 'seed': gen.sub(rng)})
    for k in (3, 9, 17, 33, 41, 65, 100, 130):          # many disjoint edges or qubits, labels from a wide range
        qs = [int(x) for x in rng.permutation(5000)]
        out.append({'kind': 'set', 'edges': [qs[2 * i:2 * i + 2] for i in range(k)], 'seed': gen.sub(rng)})
        out.append({'kind': 'set', 'edges': [[q] for q in qs[:k]], 'seed': gen.sub(rng)})
        out.append({'kind': 'set', 'edges': [[2 * i, 2 * i + 1] for i in range(k)], 'seed': gen.sub(rng)})
    for _ in range(200 if big else 25):                 # sparse graphs on many qubits
        k = int(rng.integers(10, 40))
        lab = [int(x) for x in rng.permutation(300)[:k + 1]]
        kind = rng.integers(3)
        es = [[lab[i], lab[i + 1]] for i in range(k)] if kind == 0 else ([[lab[0], lab[i]] for i in range(1, k + 1)] if kind == 1 else [[lab[i], lab[int(rng.integers(i))]] for i in range(1, k + 1)])
        out.append({'kind': 'set', 'edges': [es[i] for i in rng.permutation(len(es))], 'seed': gen.sub(rng)})
    for _ in range(12000 if big else 1200):
        out.append({'kind': 'colour', 'edges': graph(rng), 'extra': int(rng.choice([0, 0, 1, 3])), 'rep': int(rng.choice([1, 5, 50])), 'it': int(rng.choice([1, 5, 50])), 'seed': gen.sub(rng)})
    for _ in range(60 if big else 16):                  # many nodes, few colours (also fewer than are needed)
        k = int(rng.integers(13, 60))
        kind = int(rng.integers(4))
        if kind == 0:
            es = [[3 * i + a, 3 * i + b] for i in range(k // 3) for a, b in ((0, 1), (1, 2), (0, 2))]
        elif kind == 1:
            es = [[i, (i + 1) % k] for i in range(k)]
        elif kind == 2:
            es = [[i, int(rng.integers(i))] for i in range(1, k)]
        else:
            es = list(map(list, {tuple(sorted(int(x) for x in rng.permutation(k)[:2])) for _ in range(2 * k)}))
        out.append({'kind': 'colour', 'edges': [es[i] for i in rng.permutation(len(es))], 'extra': int(rng.choice([0, 0, 0, 1])), 'rep': int(rng.choice([1, 3])), 'it': int(rng.choice([1, 5])), 'seed': gen.sub(rng)})
    return out


CHUNK = 20


def graph(rng):
    n = int(rng.integers(3, 9)) if rng.random() < 0.85 else int(rng.integers(9, 13))
    r = int(rng.integers(7))
    if r == 0:
        es = [(i, i + 1) for i in range(n - 1)]
    elif r == 1:
        es = [(i, (i + 1) % n) for i in range(n)]
    elif r == 2:
        es = [(0, i) for i in range(1, n)]
    elif r == 3:
        es = list(itertools.combinations(range(n), 2))
    elif r == 4:
        k = n // 2
        es = [(i, j) for i in range(k) for j in range(k, n)]
    elif r == 5:
        es = list(itertools.combinations(range(n), 2))
        es = [es[i] for i in rng.permutation(len(es))[:int(rng.integers(2, len(es) + 1))]]
    else:
        es = [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5)]
    lab = rng.permutation(n + 2 if r != 6 else 8) if rng.random() < 0.6 else rng.permutation(30)
    es = [(int(lab[a]), int(lab[b])) for a, b in es]
    es = [list(e) if rng.random() < 0.6 else [e[1], e[0]] for e in es]
    return [es[i] for i in rng.permutation(len(es))]


def run(case, m):
    edges = [tuple(e) for e in case['edges']]
    random.seed(case['seed'])
    if case['kind'] == 'colour':
        G = nx.from_edgelist(edges)
        D = max(d for _, d in G.degree()) + case['extra']
        ok = m.call_terminates('edge colouring', LIMIT, edge_coloring.applyHeuristic, G, D, case['rep'], case['it'])
        m.event('colouring')
        proper = all(G[u][v].get('color') in range(D) for u, v in G.edges()) and all(len({G[u][v]['color'] for v in G[u]}) == G.degree(u) for u in G.nodes())
        m.check(set(map(frozenset, G.edges())) == set(map(frozenset, edges)), 'colouring changed the graph', 'colouring')
        m.check(bool(ok) == proper, 'colouring reports %s but the colouring is %s' % (ok, 'proper' if proper else 'not proper'), 'success' if ok else 'failure', stop=True, edges=edges, D=D)
        if any(d > 1 for _, d in G.degree()):
            m.key('colour', edges, D)
        return
    given = list(edges)
    sel = m.call_terminates('selection on %s' % edges, LIMIT, circuit_tools.get_commuting_set, given)
    m.event('selection')
    m.check(given == edges, 'the input list was modified', 'purity')
    m.check(len(sel) >= 1, 'nothing selected', 'selection', stop=True, edges=edges)
    sel = [tuple(e) for e in sel]
    m.check(all(e in edges for e in sel) and len(set(sel)) == len(sel), 'selection contains edges that are not in the input (or repeats)', 'selection', stop=True, sel=sel, edges=edges)
    flat = [q for e in sel for q in e]
    m.check(len(set(flat)) == len(flat), 'selected edges share a qubit', 'selection', stop=True, sel=sel, edges=edges)
    allq = [q for e in edges for q in e]
    if len(set(allq)) == len(allq):
        m.check(sorted(sel) == sorted(edges), 'a disjoint input is not returned whole', 'disjoint_input', sel=sel, edges=edges)
    else:
        m.event('overlapping')
        m.key('set', edges)
    m.sample(edges=edges, selected=sel)
