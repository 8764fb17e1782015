import numpy as np
from .. import ref, gen
from ..mon import snap
from oranssi import opt_tools

RULE = ('one evaluation = one generator checked against its label; distinct = (algebra, flags, n, label); enumeration '
        'complete for SU(2) n<=9, SU(4) n<=7, SU(8) n<=6 (quick) / n<=7 (thorough), random-draw histories of up to 60 draws on top.')
NEED = {'generator': 1500, 'draw': 200}
ALG = {'SU2': (opt_tools.AlgebraSU2, [{}, {'add_su2': True}]),
       'SU4': (opt_tools.AlgebraSU4, [{}, {'add_su2': True}, {'add_su2': False}]),
       'SU8': (opt_tools.AlgebraSU8, [dict(add_su2=a, add_su4=b) for a in (False, True) for b in (False, True)] + [{}])}


def sizes(alg, fl):
    if alg == 'SU2':
        return (1,)
    if alg == 'SU4':
        return (1, 2) if fl.get('add_su2') else (2,)
    return tuple(([1] if fl.get('add_su2') else []) + ([2] if fl.get('add_su4') else []) + [3])


def cases(rng, tier):
    out = []
    nmax = 6 if tier == 'quick' else 7
    for alg, (_, flags) in ALG.items():
        for fl in flags:
            for n in range(1, {'SU8': nmax + 1, 'SU4': 8, 'SU2': 10}[alg]):
                out.append({'kind': 'enum', 'alg': alg, 'fl': fl, 'n': n})
    for _ in range(60 if tier == 'quick' else 500):
        n = int(rng.integers(1, 6))
        out.append({'kind': 'draws', 'n': n, 'draws': int(rng.integers(5, 60)), 'seed': gen.sub(rng), 'enum_first': bool(rng.random() < 0.5), 'su2': not (n % 2 == 0 and rng.random() < 0.3)})
    return out


def label(k):
    return str(k[0]), tuple(int(q) for q in k[1:])


def verify(m, n, fp, what):
    for k, M in fp.items():
        w, q = label(k)
        ok = len(w) == len(q) == len(set(q)) and all(0 <= x < n for x in q) and set(w) <= set('XYZ')
        m.check(ok, '%s: malformed label %s' % (what, k), 'generator')
        if ok:
            m.close(M, ref.pauli_word(w, q, n), '%s: generator %s is another operator' % (what, k), 1e-12, 'generator')


def run(case, m):
    n = case['n']
    if case['kind'] == 'enum':
        cls, _ = ALG[case['alg']]
        what = '%s%s n=%d' % (case['alg'], case['fl'], n)
        a = m.call('constructing ' + what, cls, n, **case['fl'])
        m.call('enumerating ' + what, a.get_all_directions_and_qubits)
        fp = a.full_paulis
        got = [label(k) for k in fp]
        want = ref.local_words(n, sizes(case['alg'], case['fl']))
        m.check(sorted(got) == sorted(want), '%s does not contain each allowed generator exactly once' % what, 'complete',
                missing=[w for w in want if w not in got][:5], extra=[g for g in got if g not in want][:5])
        verify(m, n, fp, what)
        before = snap(dict(fp))
        m.call('enumerating again', a.get_all_directions_and_qubits)
        m.check(snap(dict(a.full_paulis)) == before, 'enumerating again changed the generators of ' + what, 'stable')
        m.key(case['alg'], case['fl'], n)
        for g in got:
            m.key(case['alg'], case['fl'], n, g)
        m.sample(algebra=what, generators=len(got))
    else:
        np.random.seed(case['seed'] % (1 << 31))
        a = opt_tools.AlgebraSU4(n, add_su2=case['su2'])
        if case['enum_first']:
            a.get_all_directions_and_qubits()
        seen = {}
        for _ in range(case['draws']):
            d, q = m.call('drawing a random direction', a.get_random_direction_and_qubits)
            m.event('draw')
            k = (d, *q)
            m.check(len(str(d)) == len(q) and len(set(int(x) for x in q)) == len(q) and all(0 <= int(x) < n for x in q), 'draw %s does not fit the register' % (k,), 'draw')
            if not m.check(k in a.full_paulis, 'no generator for the drawn direction %s' % (k,), 'draw'):
                return
            for kk in list(seen):
                m.check(snap(a.full_paulis[kk]) == seen[kk], 'a random draw changed generator %s' % (kk,), 'stable')
            seen = {kk: snap(v) for kk, v in a.full_paulis.items()}
            m.key('draw', n, label(k))
        verify(m, n, a.full_paulis, 'after random draws')
        before = {k: snap(v) for k, v in a.full_paulis.items()}
        m.call('enumerating after draws', a.get_all_directions_and_qubits)
        for k, v in before.items():
            m.check(k in a.full_paulis and snap(a.full_paulis[k]) == v, 'enumerating after draws changed generator %s' % (k,), 'stable')
        verify(m, n, a.full_paulis, 'enumerated after random draws')
        # a second algebra is not affected by writing into the generators of the first
        for v in a.full_paulis.values():
            v[...] = 0
        b = opt_tools.AlgebraSU4(n, add_su2=case['su2'])
        m.call('enumerating a second algebra', b.get_all_directions_and_qubits)
        m.check(sorted(label(k) for k in b.full_paulis) == sorted(ref.local_words(n, (1, 2) if case['su2'] else (2,))), 'a second algebra is incomplete', 'complete')
        verify(m, n, b.full_paulis, 'second algebra')
