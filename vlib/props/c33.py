import inspect
import itertools
import random
from collections import Counter
import networkx as nx
import numpy as np
from .. import gen
from .c25 import graph
from oranssi import edge_coloring as E

RULE = ('one evaluation = the conflict table (or a reported level, total, verdict or return value) compared with the colours on the '
        'graph, after a direct recolouring or inside a running heuristic; distinct = (graph, number of colours, operation); '
        'non-trivial when some vertex had a conflict.')
NEED = {'level': 3000, 'table': 3000, 'recolour': 3000, 'verdict': 600, 'precolour': 600, 'conflicts': 1000}          # rounds, giveup and restarts depend on wrapped functions being called
LIMIT = 120
CHUNK = 20


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(8000 if big else 700):
        out.append({'kind': 'books', 'edges': graph(rng), 'extra': int(rng.choice([0, 0, 1, 4])), 'start': ['random', 'one', 'pre', 'none'][rng.integers(4)], 'ops': 16, 'seed': gen.sub(rng)})
    for _ in range(8000 if big else 700):
        out.append({'kind': 'run', 'edges': graph(rng), 'extra': int(rng.choice([0, 0, 0, 1, 3])), 'rep': int(rng.choice([0, 1, 3, 20])), 'it': int(rng.choice([0, 1, 2, 6])), 'seed': gen.sub(rng)})
    for k in (2, 3, 4, 5, 6, 7):            # complete graphs and odd cycles with the fewest colours: many failures
        for s in range(6 if not big else 60):
            out.append({'kind': 'run', 'edges': [list(e) for e in itertools.combinations(range(k), 2)], 'extra': 0, 'rep': s % 4, 'it': s % 3, 'seed': gen.sub(rng)})
            out.append({'kind': 'run', 'edges': [[i, (i + 1) % (2 * k - 1)] for i in range(2 * k - 1)], 'extra': 0, 'rep': s % 4, 'it': s % 3, 'seed': gen.sub(rng)})
    for _ in range(300 if big else 24):
        k = int(rng.integers(14, 45))
        es = list(map(list, {tuple(sorted(int(x) for x in rng.permutation(k)[:2])) for _ in range(int(rng.integers(k, 3 * k)))}))
        out.append({'kind': ['run', 'books'][rng.integers(2)], 'edges': es, 'extra': int(rng.choice([0, 0, 1])), 'rep': int(rng.choice([0, 2, 8])), 'it': 1, 'start': 'random', 'ops': 40, 'seed': gen.sub(rng)})
    return out


# ---------------------------------------------------------------- the model: read from the colours alone
def colours(G, u):
    return [G[u][v].get('color') for v in G[u]]


def levels(G):
    return {u: G.degree(u) - len(set(colours(G, u))) for u in G.nodes()}


def table(G):
    t = {}
    for u, l in levels(G).items():
        if l > 0:
            t.setdefault(l, set()).add(u)
    return t


def read(d):
    return {k: set(v) for k, v in d.items() if len(v)}


def proper(G, D):
    return all(c in range(D) for u in G for c in colours(G, u)) and not any(levels(G).values())


def setcol(G, u, v, c):
    G[u][v]['color'] = c


def values(fn, a, k, n):
    """The first n arguments of a call, however they were passed; None when they cannot be told."""
    try:
        b = inspect.signature(fn).bind(*a, **k)
        b.apply_defaults()
        v = list(b.arguments.values())[:n]
        return v if len(v) == n and isinstance(v[0], nx.Graph) and all(isinstance(x, int) for x in v[1:2]) else None
    except TypeError:
        return None


def books(case, m):
    rng = np.random.default_rng(case['seed'])
    random.seed(case['seed'])
    edges = [tuple(e) for e in case['edges']]
    G = nx.from_edgelist(edges)
    D = max(d for _, d in G.degree()) + case['extra']
    if case['start'] == 'pre':
        m.call('pre-colouring', E.preColoring, G, D)
        precoloured(m, G, D)
    for u, v in G.edges():
        if case['start'] != 'pre':
            setcol(G, u, v, int(rng.integers(D)) if case['start'] == 'random' else 0 if case['start'] == 'one' else None)
    t = m.call('conflict table', E.createConflictDictionary, G, D)
    m.check(read(t) == table(G), 'the conflict table does not describe the colours', 'table', stop=True, table=t, want=table(G))
    nodes = list(G.nodes())
    es = list(G.edges())
    for step in range(case['ops']):
        for u in [nodes[i] for i in rng.permutation(len(nodes))[:3]]:
            m.check(m.call('conflict level', E.conflictLevel, G, u) == levels(G)[u], 'wrong conflict level', 'level', stop=True, node=u)
            ok = len(set(colours(G, u))) == G.degree(u) and all(c in range(D) for c in colours(G, u))
            m.check(bool(m.call('vertex verdict', E.properlyColored, G, u, D)) == ok, 'wrong verdict on a vertex', 'verdict', stop=True, node=u, colours=colours(G, u), D=D)
            if D > 1:               # fewer colours than are in use
                ok = len(set(colours(G, u))) == G.degree(u) and all(c in range(D - 1) for c in colours(G, u))
                m.check(bool(m.call('vertex verdict', E.properlyColored, G, u, D - 1)) == ok, 'wrong verdict on a vertex', 'verdict', stop=True, node=u, colours=colours(G, u), D=D - 1)
        m.check(bool(m.call('verdict', E.checkEdgeColoring, G, D)) == proper(G, D), 'wrong verdict on the colouring', 'verdict', stop=True, D=D)
        lv = levels(G)
        total = sum(lv.values())
        m.check(m.call('total', E.totalNumberOfConflicts, t) == total, 'wrong number of conflicts', 'level', stop=True)
        if total:
            m.event('conflicts')
            m.check(m.call('highest level', E.maxConflictLevel, t) == max(lv.values()), 'wrong highest conflict level', 'level', stop=True)
            m.key(len(es), D, case['start'], step % 4)
        before = {e: G[e[0]][e[1]].get('color') for e in es}
        if total and all(c in range(D) for c in before.values()) and rng.random() < 0.45:      # a repair chain from a vertex in conflict
            u = [x for x in nodes if lv[x]][int(rng.integers(sum(1 for x in nodes if lv[x])))]
            m.call_terminates('repair chain', LIMIT, E.KempeStart, G, D, u, t)
            chain(m, G, D, es, before, u)
        elif rng.random() < 0.5:
            u, v = es[int(rng.integers(len(es)))]
            if rng.random() < 0.5:
                u, v = v, u
            c = int(rng.integers(D))
            r = m.call('recolouring', E.colorEdgeAndUpdate, G, u, v, c, t)
            m.check(G[u][v]['color'] == c and all(G[a][b]['color'] == before[a, b] for a, b in es if {a, b} != {u, v}), 'recolouring one edge did something else', 'recolour', stop=True)
            m.check(r == levels(G)[v] - lv[v], 'recolouring reports another change of the conflict level', 'recolour', stop=True, got=r, want=levels(G)[v] - lv[v])
        else:                                               # by hand, then told to the table
            u, v = es[int(rng.integers(len(es)))]
            setcol(G, u, v, int(rng.integers(D)))
            for w in (u, v):
                r = m.call('updating the table', E.updateConflictDictionary, G, w, t, lv[w])
                m.check(r == levels(G)[w] - lv[w], 'the table reports another change of the conflict level', 'recolour', stop=True)
        m.check(read(t) == table(G), 'the conflict table no longer describes the colours', 'table', stop=True, table=read(t), want=table(G))
    m.check(set(map(frozenset, G.edges())) == set(map(frozenset, edges)), 'the graph changed', 'table')
    m.sample(edges=edges, D=D, table=read(t))


def precoloured(m, H, d):
    seen = []
    for e in H.edges():
        c = H[e[0]][e[1]].get('color')
        m.check(c in range(d), 'pre-colouring leaves an edge without an allowed colour', 'precolour', stop=True, edge=e, colour=c)
        used = {k for f, k in seen if set(f) & set(e)}
        if set(range(d)) - used:
            m.check(c not in used, 'pre-colouring gives an edge a colour in use although another is free', 'precolour', stop=True, edge=e, colour=c, used=sorted(used))
        seen.append((e, c))
    if d >= 2 * max(x for _, x in H.degree()) - 1:
        m.check(proper(H, d), 'pre-colouring fails although colours abound', 'precolour', stop=True)


def chain(m, G, D, es, before, start):
    """One repair chain: recolours a connected set of edges from the vertex, within the colours."""
    after = {e: G[e[0]][e[1]].get('color') for e in es}
    ch = [e for e in es if after[e] != before[e]]
    m.check(all(after[e] in range(D) for e in ch), 'a repair chain uses a colour that is not allowed', 'recolour', stop=True)
    m.check(bool(ch), 'a repair chain at a vertex in conflict changed nothing', 'recolour', stop=True, node=start)
    m.check(nx.is_connected(nx.Graph(ch)), 'a repair chain recolours edges that do not hang together', 'recolour', stop=True, edges=ch)


def run_(case, m):
    random.seed(case['seed'])
    edges = [tuple(e) for e in case['edges']]
    G = nx.from_edgelist(edges)
    D = max(d for _, d in G.degree()) + case['extra']
    log = {'pre': 0, 'verdicts': [], 'rounds': []}
    pre, heur, start = E.preColoring, E.heuristic, E.KempeStart

    def mon_pre(*a, **k):
        r = pre(*a, **k)
        log['pre'] += 1
        v = values(pre, a, k, 2)
        if v is None:
            return r
        H, d = v
        precoloured(m, H, d)
        return r

    def mon_start(*a, **k):
        v = values(start, a, k, 4)
        if v is None or not isinstance(v[3], dict) or v[2] not in v[0]:
            return start(*a, **k)
        H, d, node, t = v
        m.check(read(t) == table(H), 'the conflict table does not describe the colours in a running heuristic', 'table', stop=True, table=read(t), want=table(H))
        lv = levels(H)
        m.check(lv[node] == max(lv.values()) > 0, 'a round does not start at a vertex with most conflicts', 'rounds', stop=True, node=node, levels=lv)
        es = list(H.edges())
        before = {e: H[e[0]][e[1]].get('color') for e in es}
        r = start(*a, **k)
        chain(m, H, d, es, before, node)
        m.check(read(t) == table(H), 'the conflict table does not describe the colours after a round', 'table', stop=True, table=read(t), want=table(H))
        log['rounds'].append(sum(levels(H).values()))
        m.event('conflicts')
        return r

    def mon_heur(*a, **k):
        v = values(heur, a, k, 3)
        if v is None:
            return heur(*a, **k)
        H, d, rep = v
        first = sum(levels(H).values())
        log['rounds'] = []
        ok = heur(*a, **k)
        left = sum(levels(H).values())
        m.check(bool(ok) == (left == 0), 'the heuristic reports %s with %d conflicts left' % (ok, left), 'verdict', stop=True)
        best, idle = first, 0
        for i, now in enumerate(log['rounds']):
            m.check(best > 0 and idle <= rep, 'the heuristic goes on after it should have stopped', 'rounds', stop=True, rounds=log['rounds'], rep=rep)
            idle = 0 if now < best else idle + 1
            best = min(best, now)
        if not ok and log['rounds']:
            m.check(idle == rep + 1, 'the heuristic gives up before %d rounds without progress' % (rep + 1), 'giveup', stop=True, rounds=[first] + log['rounds'], rep=rep)
        log['verdicts'].append(bool(ok))
        return ok

    E.preColoring, E.heuristic, E.KempeStart = mon_pre, mon_heur, mon_start
    try:
        ok = m.call_terminates('edge colouring', LIMIT, E.applyHeuristic, G, D, case['rep'], case['it'])
    finally:
        E.preColoring, E.heuristic, E.KempeStart = pre, heur, start
    m.check(bool(ok) == proper(G, D), 'wrong verdict on the colouring', 'verdict', stop=True)
    if log['verdicts']:
        m.check(not any(log['verdicts'][:-1]), 'a successful colouring was thrown away', 'restarts', stop=True, verdicts=log['verdicts'])
        m.check(len(log['verdicts']) <= case['it'] + 1, 'more restarts than allowed', 'restarts', stop=True, verdicts=log['verdicts'], limit=case['it'])
        if not ok:
            m.check(len(log['verdicts']) == case['it'] + 1, 'gave up with restarts left', 'restarts', stop=True, verdicts=log['verdicts'], limit=case['it'])
        if log['pre']:
            m.check(log['pre'] == len(log['verdicts']), 'an attempt did not start from a fresh pre-colouring', 'restarts', stop=True, pre=log['pre'], attempts=len(log['verdicts']))
    m.check(set(map(frozenset, G.edges())) == set(map(frozenset, edges)), 'the graph changed', 'table')
    m.key('run', sorted(Counter(d for _, d in G.degree()).items()), D, case['rep'], case['it'], log['verdicts'])
    m.sample(edges=edges, D=D, verdicts=log['verdicts'], rounds=log['rounds'])


def run(case, m):
    return (books if case['kind'] == 'books' else run_)(case, m)
