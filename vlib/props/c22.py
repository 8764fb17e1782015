import numpy as np
from .. import ref, gen
from .pauli_common import *

RULE = ('one evaluation = one product / commutator / commutation test / conjugation / label compared with the same matrix '
        'operation, all live objects being re-read after every operation; operands are drawn from a growing pool that '
        'contains earlier results; distinct = (operation, labels of the operands); non-trivial when an operand has a '
        'coefficient other than 1 or is itself a result.')
NEED = {'pauli_mul': 800, 'mul': 1500, 'commutator': 600, 'commutes': 600, 'conj': 200, 'label': 1500, 'assoc': 300, 'frozen': 3000, 'rejections': 60, 'symbolic': 200}


def cases(rng, tier):
    big = tier != 'quick'
    return [{'sites': int(rng.choice([1, 2, 3, 4, 6], p=[.23, .24, .25, .25, .03])), 'symbolic': bool(rng.random() < 0.25), 'ops': 24, 'scale': float(rng.choice([1.0, 1e-6, 1e5, 1e-3], p=[0.55, 0.2, 0.15, 0.1])), 'seed': gen.sub(rng)} for _ in range(8000 if big else 900)] + [{'long': True, 'sites': int(rng.integers(5, 16)), 'seed': gen.sub(rng)} for _ in range(500 if big else 60)] + [{'reject': True}]


def close(m, got, want, msg, kind, size=None, **kw):
    """Relative comparison; `size` is the natural magnitude where `want` itself may vanish."""
    size = float(np.max(np.abs(want))) if size is None else float(size)
    return m.close(got, want, msg, 1e-9 * size + 1e-300, kind, stop=True, **kw)


def mag(A):
    return float(np.max(np.abs(A)))


def anticommute(la, lb):
    """Decided from the words alone: an odd number of sites with two different non-identity letters."""
    b = dict(lb)
    return sum(1 for s, c in la if c != 'I' and b.get(s, 'I') not in ('I', c)) % 2 == 1


def run(case, m):
    if case.get('reject'):
        return reject(m)
    if case.get('long'):
        return long(case, m)
    N = case['sites']
    sy = case['symbolic']
    sc = 1.0 if sy else case['scale']
    rng = np.random.default_rng(case['seed'])
    set_sites(rng, N)
    # single operators
    for _ in range(12):
        s = int(rng.integers(N))
        a, b = rand_pauli(rng, s, sy, scale=sc), rand_pauli(rng, s, sy, scale=sc)
        A, B = mat_pauli(a, N), mat_pauli(b, N)
        c = m.call('product of Paulis %r %r' % (a, b), lambda: a * b)
        close(m, mat_pauli(c, N), A @ B, 'product of %r and %r' % (a, b), 'pauli_mul')
        m.check(c.alpha == SITES[s], 'site of a product', 'pauli_mul')
        close(m, mat_pauli(a, N), A, 'left operand changed', 'frozen')
        close(m, mat_pauli(b, N), B, 'right operand changed', 'frozen')
        d = m.call('triple product', lambda: c * rand_pauli(rng, s, sy))
        if not sy:                      # the product is an object of its own
            C = mat_pauli(c, N)
            m.call('conj', c.conj)
            close(m, mat_pauli(c, N), np.conj(num(C[np.nonzero(C)][0]) / ref.pauli_word(letter(c), (s,), N)[np.nonzero(C)][0]) * ref.pauli_word(letter(c), (s,), N) if mag(C) else C, 'conjugate of a product', 'conj')
            close(m, mat_pauli(a, N), A, 'conjugating a product changed its left operand', 'frozen')
            close(m, mat_pauli(b, N), B, 'conjugating a product changed its right operand', 'frozen')
        m.key('pauli', letter(a), letter(b), num(a.coeff), num(b.coeff))
        cc = complex(np.conj(num(a.coeff))) if not sy else None
        if cc is not None:
            close(m, mat_pauli(m.call('conj', a.conj), N), cc * ref.pauli_word(letter(a), (s,), N), 'conjugate of %r' % a, 'conj')
    pool = [rand_mono(rng, N, sy, scale=sc) for _ in range(4)]
    mats = [mat_mono(x, N) for x in pool]
    labs = [label(x) for x in pool]

    def frozen(what):
        for x, M, l in zip(pool, mats, labs):
            close(m, mat_mono(x, N), M, '%s changed another monomial' % what, 'frozen')
            m.check(label(x) == l, '%s relabelled another monomial' % what, 'frozen', stop=True)

    for x in pool:
        checklabel(m, x)
    for step in range(case['ops']):
        i, j = int(rng.integers(len(pool))), int(rng.integers(len(pool)))
        a, b, A, B = pool[i], pool[j], mats[i], mats[j]
        r = rng.random()
        if sy:
            m.event('symbolic')
        if r < 0.45:
            c = m.call('product', lambda: a * b)
            close(m, mat_mono(c, N), A @ B, 'product of %r and %r' % (a, b), 'mul')
            frozen('a product')
            op = '*'
        elif r < 0.65:
            c = m.call('commutator', a.commutator, b)
            close(m, mat_mono(c, N), A @ B - B @ A, 'commutator of %r and %r' % (a, b), 'commutator', size=mag(A) * mag(B))
            frozen('a commutator')
            op = '[]'
        elif r < 0.85:
            t = m.call('commutation test', a.commutes_with, b)
            want = not anticommute(labs[i], labs[j]) or mag(A) * mag(B) == 0
            m.check(bool(t) == bool(want), 'commutation test of %r and %r says %s' % (a, b, t), 'commutes', stop=True)
            frozen('a commutation test')
            m.key('?', labs[i], labs[j])
            continue
        elif r < 0.93:
            k = int(rng.integers(len(pool)))
            l = m.call('product', lambda: (a * b) * pool[k])
            q = m.call('product', lambda: a * (b * pool[k]))
            close(m, mat_mono(l, N), mat_mono(q, N), 'multiplication is not associative', 'assoc', size=mag(A) * mag(B) * mag(mats[k]))
            close(m, mat_mono(l, N), A @ B @ mats[k], 'triple product', 'assoc', size=mag(A) * mag(B) * mag(mats[k]))
            c, op = l, '***'
        else:
            if sy:
                continue
            w = word_matrix(labs[i], N)
            z = num(a.coeff)
            c = m.call('conj', a.conj)
            close(m, mat_mono(c, N), np.conj(z) * w, 'conjugate of coefficient %s' % z, 'conj')
            close(m, mat_mono(a, N), np.conj(z) * w, 'conjugated monomial', 'conj')
            mats[i] = np.conj(z) * w
            pool = pool[:i] + [c] + pool[i + 1:]
            frozen('a conjugation')
            continue
        m.key(op, labs[i], labs[j], num(a.coeff) == 1.0)
        checklabel(m, c)
        if (mag(mat_mono(c, N)) == 0 or 1e-60 < mag(mat_mono(c, N)) < (50 if sy else 1e40)) and len(str(c.coeff)) < 80:
            pool.append(c)
            mats.append(mat_mono(c, N))
            labs.append(label(c))
        if len(pool) > 9:
            k = int(rng.integers(len(pool)))
            for L in (pool, mats, labs):
                del L[k]
    m.sample(sites=N, symbolic=sy, last=repr(pool[-1]))


def wmul(la, lb):
    """Product of two words {site: letter}, as (phase, word)."""
    out, z = dict(la), 1
    for s, c in lb.items():
        if s not in out:
            out[s] = c
            continue
        a, b = LET.index(out[s]), LET.index(c)
        out[s] = LET[a ^ b]
        if a and b and a != b:
            z *= 1j if (b - a) % 3 == 1 else -1j
    return z, out


def long(case, m):
    """Monomials on many sites, judged by word arithmetic instead of matrices."""
    rng = np.random.default_rng(case['seed'])
    N = case['sites']
    set_sites(rng, N)
    pool = [rand_mono(rng, N) for _ in range(3)]
    for _ in range(4):
        k = int(rng.integers(5, N + 1))
        x = rand_mono(rng, N, sites=rng.permutation(N)[:k])
        pool.append(x)
        if rng.random() < 0.7:               # and one on the same sites
            pool.append(rand_mono(rng, N, sites=[rank(x[i].alpha) for i in range(len(x))]))
    vals = [(dict(label(x)), num(x.coeff)) for x in pool]

    def judge(got, z, w, what, size):
        m.check(abs(num(got.coeff) - z) <= 1e-9 * size and (abs(z) <= 1e-12 * size or dict(label(got)) == w), what, 'mul', stop=True, got=repr(got), want=(z, w))

    for _ in range(60):
        i, j = int(rng.integers(len(pool))), int(rng.integers(len(pool)))
        a, b, (la, za), (lb, zb) = pool[i], pool[j], vals[i], vals[j]
        z, w = wmul(la, lb)
        anti = sum(1 for s, c in la.items() if c != 'I' and lb.get(s, 'I') not in ('I', c)) % 2
        r = rng.random()
        if r < 0.35:
            c = m.call('product', lambda: a * b)
            judge(c, z * za * zb, w, 'product of %r and %r' % (a, b), abs(za * zb))
            if len(pool) < 12 and 1e-3 < abs(za * zb) < 1e3:
                pool.append(c)
                vals.append((w, z * za * zb))
        elif r < 0.6:
            c = m.call('commutator', a.commutator, b)
            judge(c, 2 * z * za * zb * anti, w, 'commutator of %r and %r' % (a, b), abs(za * zb))
            m.event('commutator')
        else:
            t = m.call('commutation test', a.commutes_with, b)
            m.check(bool(t) == (not anti), 'commutation test of %r and %r says %s' % (a, b, t), 'commutes', stop=True)
        for x, (l, v) in zip(pool, vals):
            m.check(dict(label(x)) == l and abs(num(x.coeff) - v) <= 1e-9 * abs(v), 'an operation changed another monomial', 'frozen', stop=True)
    for x in pool:
        checklabel(m, x)
        m.key('long', label(x))


def checklabel(m, x):
    lab = label(x)
    m.check(list(a for a, _ in lab) == sorted({a for a, _ in lab}), 'factors are not one per site in site order', 'label', stop=True, got=lab)
    o = m.call('label', x.to_oranssi)
    m.check(tuple(o) == (''.join(c for _, c in lab if c != 'I'), *[a for a, c in lab if c != 'I']), 'label of %r' % (x,), 'label', stop=True, got=o)


def reject(m):
    X = lambda s, g='X', **k: P.Pauli(s, g, **k)
    for a in range(3):
        for b in range(3):
            if a != b:
                m.rejects('product across sites', lambda: X(a) * X(b))
    for g in ('Q', 'x', 'XY', '', 4, -1, 7, None, 1.0):
        m.rejects('gamma %r' % (g,), P.Pauli, 0, g)
        m.key('gamma', repr(g))
    for a in (-1, '0', 1.5, None):
        m.rejects('site %r' % (a,), P.Pauli, a, 'X')
        m.key('site', repr(a))
    for c in ('1', None, [1.0]):
        m.rejects('coefficient %r' % (c,), P.Pauli, 0, 'X', coeff=c)
        m.key('coeff', repr(c))
    for k in range(20):
        m.rejects('two factors on one site', P.PauliMonomial, [X(k % 3), X(1 + k % 3), X(k % 3, 'Y')])
        m.rejects('a monomial of strings', P.PauliMonomial, [X(0), 'X'])
    for fn in ('commutator', 'commutes_with'):
        for bad in (3, 'X', X(0), None):
            m.rejects('%s with %r' % (fn, bad), getattr(P.PauliMonomial([X(0)]), fn), bad)
