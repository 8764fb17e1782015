import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from .. import ref, gen, build
from ..mon import snap
from oranssi import plot_utils

RULE = ('one evaluation = one curve read back from the matplotlib axes and compared point by point with the reference '
        'gradients; distinct = (plot function, number of unitaries, observables); non-trivial when some gradient is non-zero.')
NEED = {'word_curve': 600, 'aggregate_curve': 150, 'completeness': 60}

FNS = {'sep16': 4, 'agg16': 4, 'agg8': 2, 'ind8': 2}


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(60 if big else 9):
        for f in ('sep16', 'agg16'):
            out.append(one(rng, f, 4))
    for _ in range(400 if big else 50):
        for f in ('agg8', 'ind8'):
            out.append(one(rng, f, 2))
    for f in ('agg8', 'ind8'):
        for k in (100, 101, 137) + ((512,) if big else ()):
            out.append(dict(one(rng, f, 2), k=k, kinds=[int(x) for x in rng.integers(0, 4, k)]))
    for f in ('sep16', 'agg16'):
        k = 30 if not big else 120
        out.append(dict(one(rng, f, 4), k=k, kinds=[int(x) for x in rng.integers(0, 4, k)]))
    return out[::-1]


def one(rng, f, n):
    k = int(rng.choice([1, 2, 3, 5])) if n == 4 else int(rng.choice([1, 2, 3, 6, 11, 26]))
    return {'f': f, 'n': n, 'obs': gen.observables(rng, n, 1, 6, maxk=4), 'k': k, 'kinds': [int(x) for x in rng.integers(0, 4, k)], 'seed': gen.sub(rng)}


def unitaries(case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    out = []
    for kind in case['kinds']:
        if kind == 0:
            U = np.eye(2 ** n, dtype=complex)
        elif kind == 1:
            U = ref.unitary(gen.circuit(rng, n, 4, ['Hadamard', 'PauliX', 'S', 'CNOT', 'CZ']), n)
        else:
            U = ref.haar(rng, 2 ** n)
        out.append(U)
    return out


def lines_of(axs):
    out = []
    for a in np.ravel(np.array(axs, dtype=object)):
        for l in a.get_lines():
            out.append((l.get_label(), np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)))
    return out


def run(case, m):
    n, f = case['n'], case['f']
    us = unitaries(case)
    obs = build.observables(case['obs'])
    dev = build.device(n)
    H = ref.ham(case['obs'], n)
    words = [w for w in ref.words(n) if set(w) != {'I'}]
    want = {w: np.array([ref.grad_im(U[:, 0], ref.pauli_word(w, range(n), n), H) / 2 ** n for U in us]) for w in words}
    keep = snap(us), snap(obs)
    plt.close('all')
    try:
        if f == 'sep16':
            r = m.call(f, plot_utils.plot_su16_directions_separate, n, us, obs, dev)
        elif f == 'agg16':
            r = m.call(f, plot_utils.plot_su16_directions, n, us, obs, dev)
        elif f == 'agg8':
            r = m.call(f, plot_utils.plot_su8_directions, n, us, obs, dev)
        else:
            r = m.call(f, plot_utils.plot_su8_directions_individually, us, obs, dev)
        m.check((snap(us), snap(obs)) == keep, 'the trajectory was modified', 'purity')
        fig, axs = r
        main = lines_of(axs)
        others = []
        for num in plt.get_fignums():
            g = plt.figure(num)
            if g is not fig:
                others += lines_of(g.axes)
    finally:
        plt.close('all')
    x = np.arange(len(us))
    for label, xs, ys in main + others:
        if label in want:
            m.close(ys, want[label], '%s: curve %s' % (f, label), 1e-9, 'word_curve', stop=True)
            m.close(xs, x, '%s: abscissae of %s' % (f, label), 1e-9, 'word_curve')
    got = [l for l, _, _ in main]
    if f in ('sep16', 'ind8'):
        m.check(len(set(got)) == len(got) and set(got) <= set(want), '%s draws curves twice or for unknown words' % f, 'completeness', labels=got)
        for w in words:
            if np.max(np.abs(want[w])) > 1e-6:
                m.check(w in got, '%s does not show %s' % (f, w), 'completeness')
        if f == 'sep16':
            for a in np.ravel(axs):
                c = {l.get_label().count('I') for l in a.get_lines()}
                m.check(len(c) <= 1, 'one panel mixes words of different weight', 'completeness')
    else:
        zero = [ys for l, xs, ys in main if l == 'Min.']
        m.check(len(zero) == 1, 'no reference line', 'completeness')
        for z in zero:
            m.close(z, np.zeros(len(us)), '%s: reference line' % f, 1e-12, 'aggregate_curve')
        for i in range(n):
            lab = 'SU$(%d)$' % 2 ** (n - i)
            agg = sum(np.abs(want[w]) for w in words if w.count('I') == i)
            ys = [(a, b) for l, a, b in main if l == lab]
            m.check(len(ys) == 1, '%s shows %d curves %s' % (f, len(ys), lab), 'completeness', stop=True, labels=got)
            m.close(ys[0][1], agg, '%s: curve %s' % (f, lab), 1e-9, 'aggregate_curve', stop=True)
            m.close(ys[0][0], x, '%s: abscissae of %s' % (f, lab), 1e-9, 'aggregate_curve')
    if max(np.max(np.abs(v)) for v in want.values()) > 1e-6:
        m.key(f, len(us), case['obs'])
    m.sample(plot=f, unitaries=len(us), labels=got[:6])
