import numpy as np
import pennylane as qml
from .. import ref, gen, build
from ..mon import snap
from .common import flags, floats, make_layer
from .c14 import start
from oranssi import optimizers

RULE = ('one evaluation = one recorded step checked by a nondeterministic phase automaton (set of still possible (phase, '
        'counter, A, angle) states; empty set = violation); distinct = (options, ratio, phase, n, observables, A, B); '
        'non-trivial when the step is in the second phase or changes the phase.')
NEED = {'su4': 150, 'su8': 100, 'su8_moved': 60, 'su8_skipped': 15, 'phase': 250, 'offline': 40, 'linesearch': 120, 'stationary': 10, 'tiny': 10}


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(1500 if big else 170):
        n = int(rng.choice([3, 4, 5], p=[0.86, 0.12, 0.02]))
        calls = int(rng.integers(4, 12)) if rng.random() < 0.8 else int(rng.integers(12, 26)) if rng.random() < 0.8 else int(rng.integers(26, 56))
        hi = int(rng.choice([4, 7], p=[0.7, 0.3]))
        out.append({'kind': 'layer' if rng.random() < 0.65 else 'opt', 'n': n, 'obs': gen.observables(rng, n, 1, 7, maxk=3, herm=0.08),
                    'ratio': [int(rng.integers(1, hi)), int(rng.integers(1, hi))] if rng.random() < 0.75 else None,
                    'opts': {k: True for k in ('add_su2', 'add_su4') if rng.random() < 0.35}, 'eta': gen.eta(rng), 'calls': calls if n == 3 else 5, 'seteta': bool(rng.random() < 0.25),
                    'start': ['haar', 'circ', 'eigen', 'basis'][rng.choice(4, p=[0.55, 0.2, 0.12, 0.13])], 'circ': gen.circuit(rng, n, 5), 'fresh': bool(rng.random() < 0.3), 'seed': gen.sub(rng)})
    for _ in range(300 if big else 40):
        out.append({'kind': 'tiny', 'n': 3, 'eps': float(10 ** rng.uniform(-5.5, -1.5)), 'sign': int(rng.choice([-1, 1])), 'ratio': [1, int(rng.integers(1, 3))], 'opts': {k: True for k in ('add_su2', 'add_su4') if rng.random() < 0.35},
                    'eta': gen.eta(rng), 'seed': gen.sub(rng)})
    return out


def nearly_stationary(rng, eps, sign):
    """A state and an observable whose one- and two-qubit gradients vanish except for one of size eps, with a minimum nearby."""
    while True:
        U = ref.haar(rng, 8)
        psi = U[:, 0]
        basis = [ref.pauli_word(w, q, 3) for w, q in ref.local_words(3, (1, 2, 3))]
        words = ref.local_words(3, (1, 2))
        G = np.array([[ref.grad_im(psi, ref.pauli_word(w, q, 3), B) for B in basis] for w, q in words])
        A = words[rng.integers(len(words))]
        b = np.zeros(len(words))
        b[words.index(A)] = sign * eps
        part = np.linalg.lstsq(G, b, rcond=None)[0]
        null = np.linalg.svd(G)[2][np.linalg.matrix_rank(G, tol=1e-9):]
        if len(null) == 0:
            continue
        h = part + rng.normal(size=len(null)) @ null
        H = sum(c * B for c, B in zip(h, basis))
        PA = ref.pauli_word(A[0], A[1], 3)
        if np.real(psi.conj() @ PA @ H @ PA @ psi - psi.conj() @ H @ psi) > 0.3:
            return U, H, A


class Automaton:
    """Specification of the layer as a set of possible internal states, advanced by observed factors."""

    def __init__(self, n, obs, ratio, opts, eta):
        self.n, self.H, self.eta = n, ref.ham(obs, n), eta
        self.r0, self.r1 = ratio or (1, 1)
        self.k4 = (1, 2) if opts.get('add_su2') else (2,)
        self.k8 = (3,) + ((1,) if opts.get('add_su2') else ()) + ((2,) if opts.get('add_su4') else ())
        self.hyp = {('su4', 0, None, 0.0)}

    def candidates(self, psi, A, th):
        """(B, angle, certain) for every word B that may be used after A."""
        n, H = self.n, self.H
        out = []
        if A is None or abs(th) < 1e-3 - 1e-8:
            return out
        PA = ref.pauli_word(A[0], A[1], n)
        ab = {k: ref.pauli_word(k[0], k[1], n) for k in ref.local_words(n, self.k8)}
        for B in ref.local_words(n, self.k4):
            if len(set(A[1]) & set(B[1])) != 1:
                continue
            PB = ref.pauli_word(B[0], B[1], n)
            C = ref.comm(PA, PB)
            if np.max(np.abs(C)) < 1e-9:
                continue
            word = word_of(A, B)
            if word not in ab:
                continue
            PAB = ab[word]
            s = (np.trace(PAB.conj().T @ C) / 2 ** n).imag
            w = ref.grad_im(psi, PAB, H)
            if abs(w) < 1e-3 - 1e-8:
                continue
            gB = ref.grad_im(psi, PB, H)
            wB = -(2 * w / th) / s
            sure = abs(w) > 1e-3 + 1e-8 and abs(th) > 1e-3 + 1e-8 and abs(gB) > 1e-9
            out.append((B, 2 * self.eta * wB / 2 ** n, sure))
        return out

    def step(self, U, V):
        """Advance; returns description of what was observed, or None when no state explains it."""
        n = self.n
        psi = U[:, 0]
        F = V @ U.conj().T
        new = set()
        saw = set()
        for ph, cnt, A, th in self.hyp:
            if ph == 'su4':
                r = ref.single_rotation(F, n, self.k4, 1e-7)
                if r is None:
                    continue
                k, ang = r
                saw.add('su4')
                nxt = ('su8', 0) if cnt + 1 >= self.r0 else ('su4', cnt + 1)
                new.add(nxt + ((k, ang) if k is not None else (None, 0.0)))
            else:
                cs = self.candidates(psi, A, th)
                still = np.max(np.abs(F - np.eye(2 ** n))) < 1e-7
                if still and not any(sure for _, _, sure in cs):
                    new.add(('su4', 0, A, th))
                    saw.add('su8_skipped')
                for B, ang, _ in cs:
                    if np.max(np.abs(F - ref.rot(ref.pauli_word(B[0], B[1], n), ang))) < 1e-7 * (1 + abs(ang)):
                        nxt = ('su4', 0) if cnt + 1 >= self.r1 else ('su8', cnt + 1)
                        new.add(nxt + (B, th))
                        saw.add('su8_moved')
        if not new:
            return None
        self.before = self.hyp
        self.hyp = new
        return saw

    def phases(self):
        return {h[0] for h in self.hyp}

    def observe_phase(self, ph):
        self.hyp = {h for h in self.hyp if h[0] == ph}
        return bool(self.hyp)


PROD = {'XY': 'Z', 'YX': 'Z', 'YZ': 'X', 'ZY': 'X', 'ZX': 'Y', 'XZ': 'Y'}


def word_of(A, B):
    """Label of the product word of A and B (non-identity letters only)."""
    a, b = dict(zip(A[1], A[0])), dict(zip(B[1], B[0]))
    out = []
    for q in sorted(set(a) | set(b)):
        if q in a and q in b:
            out.append((q, PROD[a[q] + b[q]]))
        else:
            out.append((q, a.get(q) or b.get(q)))
    return ''.join(c for _, c in out), tuple(q for q, _ in out)


def run(case, m):
    n = case['n']
    d = 2 ** n
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'tiny':
        return tiny(case, m, rng)
    H = ref.ham(case['obs'], n)
    obs = build.observables(case['obs'])
    dev = build.device(n)
    kw = dict(case['opts'])
    if case['ratio'] is not None:
        kw['ratio'] = tuple(case['ratio'])
    L = m.call('constructing', make_layer, 'zass', dev, obs, case['eta'], **dict(kw, **flags(case['seed'])))
    aut = Automaton(n, case['obs'], case['ratio'], case['opts'], case['eta'])
    if case['kind'] == 'opt':
        costs, us, z = m.call('run', optimizers.approximate_lie_optimizer, build.circuit_fn(case['circ']), [], obs, dev, layers=[L], nsteps=case['calls'], tol=None, return_unitary=True, return_zassenhaus=True)
        m.check(len(z) == case['calls'] and len(us) == case['calls'] + 1, 'one phase per step is reported', 'offline', stop=True)
        for k in range(case['calls']):
            m.check(aut.observe_phase(z[k]), 'step %d is reported as %s' % (k, z[k]), 'phase', stop=True, allowed=sorted(aut.phases()), phases=list(z), ratio=case['ratio'])
            verdict(case, m, aut, np.asarray(us[k]), np.asarray(us[k + 1]), k, z[k])
            m.event('offline')
        return
    U = start(case, rng, H, n)
    if max(abs(ref.grad_im(U[:, 0], ref.pauli_word(w, q, n), H)) for w, q in ref.local_words(n, (1, 2))) < 1e-9:
        m.event('stationary')
    for k in range(case['calls']):
        ph = getattr(L, 'su_state', None)
        if ph is not None:
            m.check(aut.observe_phase(ph), 'before step %d the layer is in phase %s' % (k, ph), 'phase', stop=True, allowed=sorted(aut.phases()), ratio=case['ratio'])
        if case['seteta'] and k and rng.random() < 0.3:
            aut.eta = gen.eta(rng)
            m.call('set_eta', L.set_eta, aut.eta)
        keep = snap(U)
        V = np.asarray(m.call('Zassenhaus step %d' % k, L, U))
        m.check(snap(U) == keep, 'the layer modified its input', 'purity')
        verdict(case, m, aut, U, V, k, ph)
        U = ref.haar(rng, d) if case['fresh'] and k % 3 == 1 else V


def tiny(case, m, rng):
    """First-phase angles of either sign around and below the 1e-3 threshold of the second phase."""
    U, H, A = nearly_stationary(rng, case['eps'], case['sign'])
    obs = [qml.Hermitian(H, wires=[0, 1, 2])]
    L = m.call('constructing', make_layer, 'zass', build.device(3), obs, case['eta'], ratio=tuple(case['ratio']), **case['opts'])
    aut = Automaton(3, [], case['ratio'], case['opts'], case['eta'])
    aut.H = H
    case = dict(case, obs='tiny 1e%d' % int(np.floor(np.log10(case['eps']))))
    for k in range(3):
        V = np.asarray(m.call('Zassenhaus step %d' % k, L, U))
        verdict(case, m, aut, U, V, k, None)
        ang = [abs(h[3]) for h in aut.hyp]
        if k == 0 and ang and max(ang) < 1e-3:
            m.event('tiny')
        U = V


def line_search(m, aut, U, V, k):
    """A first-phase step goes to the minimum along a steepest allowed word."""
    psi, n, H = U[:, 0], aut.n, aut.H
    g = {w: abs(ref.grad_im(psi, ref.pauli_word(w[0], w[1], n), H)) for w in ref.local_words(n, aut.k4)}
    top = max(g.values())
    best = [w for w, v in g.items() if v >= top - 1e-7]
    e1 = ref.energy(V, H)
    m.check(any(abs(e1 - ref.line_min(psi, ref.pauli_word(w[0], w[1], n), H)) < 1e-8 for w in best), 'step %d is not a line search along a steepest word' % k, 'linesearch', stop=True, energy=e1, best=[str(b) for b in best[:4]])


def verdict(case, m, aut, U, V, k, ph):
    m.check(V.shape == U.shape and np.all(np.isfinite(V)), 'step %d returned garbage' % k, 'phase', stop=True)
    before = aut.hyp
    saw = aut.step(U, V)
    if saw == {'su4'}:
        line_search(m, aut, U, V, k)
    if saw is None:
        A = sorted(before, key=str)[0]
        m.check(False, 'step %d (phase %s) is not a step the schedule allows' % (k, ph), 'phase', stop=True, states=[str(h) for h in before],
                factor=str(ref.single_rotation(V @ U.conj().T, case['n'], (1, 2, 3), 1e-6)), allowed=[str(c) for c in aut.candidates(U[:, 0], A[2], A[3])][:6])
    for s in saw:
        m.event(s)
        if s.startswith('su8'):
            m.event('su8')
    h = sorted(aut.hyp, key=str)[0]
    m.key(case['opts'], case['ratio'], sorted(saw), case['n'], case['obs'], h[2])
    m.sample(ratio=case['ratio'], opts=case['opts'], step=k, saw=sorted(saw), state=str(h))
