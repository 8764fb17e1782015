import re
import numpy as np
import sympy as sp
from .. import ref, gen, build
from .pauli_common import *
from .common import make_layer, layer_ok
from oranssi import opt_tools, optimizers

RULE = ('one evaluation = one printed or TeX form parsed back and compared with the operator it was printed from, one pair of objects '
        'whose coefficient-free forms are compared with their words, or one direction listing of a layer compared with the directions '
        'it was built with (before and after use); distinct = (form, word, coefficient class) or (layer, n, directions); non-trivial when a factor is not the identity.')
NEED = {'repr': 1500, 'tex': 1500, 'injective': 3000, 'listing': 150, 'row': 150, 'stable': 150}


def cases(rng, tier):
    big = tier != 'quick'
    out = [{'kind': 'pauli', 'sites': int(rng.integers(1, 5)) if rng.random() < 0.75 else int(rng.integers(5, 13)), 'symbolic': bool(rng.random() < 0.3), 'scale': float(rng.choice([1.0, 1e-9, 1e7])), 'seed': gen.sub(rng)} for _ in range(1500 if big else 250)]
    for _ in range(500 if big else 60):
        n = int(rng.choice([2, 3, 4]))
        out.append({'kind': 'layer', 'n': n, 'seed': gen.sub(rng), 'obs': gen.observables(rng, n, 1, 3)})
    return out


def run(case, m):
    (paulis if case['kind'] == 'pauli' else layers)(case, m)


def value(text):
    """Numeric value of a printed coefficient."""
    try:
        return complex(text)
    except ValueError:
        e = sp.sympify(text, locals={'x': SYM[0], 'y': SYM[1], 'z': SYM[2], 'I': sp.I})
        return complex(sp.N(e.subs(VAL)))


REPR = re.compile(r'^(?:(?P<c>.+) \* )?(?P<f>S\(\d+,[0-3]\)(?: S\(\d+,[0-3]\))*)$')
FAC = re.compile(r'S\((\d+),([0-3])\)')
TEX = re.compile(r'\\sigma_\{(\d+)\}\^\{([XYZ])\}|I_\{(\d+)\}')


def read_repr(text):
    g = REPR.match(text)
    if not g:
        return None
    return (1.0 if g.group('c') is None else value(g.group('c'))), tuple((int(a), LET[int(b)]) for a, b in FAC.findall(g.group('f')))


def read_tex(text):
    """Factors of a TeX form and what is left of it."""
    fac = tuple((int(a or c), b or 'I') for a, b, c in TEX.findall(text))
    return TEX.sub('', text).strip(), fac


def agree(m, got, want, msg, kind, **kw):
    m.check(abs(got - want) <= 1e-11 * abs(want), msg, kind, got=got, want=want, **kw)


def one(m, o, lab, c, what):
    t = m.call('repr', repr, o)
    r = read_repr(t)
    m.check(r is not None, 'printed form of a %s cannot be read' % what, 'repr', stop=True, text=t)
    m.check(r[1] == lab, 'printed form of a %s shows other factors' % what, 'repr', stop=True, text=t, word=lab)
    agree(m, r[0], c, 'printed form of a %s shows another coefficient' % what, 'repr', text=t)
    bare = m.call('repr without coefficient', lambda: o.__repr__(coeff=False))
    r = read_repr(bare)
    m.check(r is not None and r == (1.0, lab), 'form without coefficient', 'repr', text=bare, word=lab)
    return bare


def paulis(case, m):
    rng = np.random.default_rng(case['seed'])
    N, sy = case['sites'], case['symbolic']
    set_sites(rng, N)
    sc = 1.0 if sy else case['scale']
    objs = []
    for _ in range(6):
        p = rand_pauli(rng, int(rng.integers(N)), sy, scale=sc)
        lab = ((p.alpha, letter(p)),)
        one(m, p, lab, num(p.coeff), 'Pauli')
        t = m.call('tex', p.tex)
        if letter(p) == 'I':
            m.check(t.endswith(' I') , 'TeX form of an identity', 'tex', text=t)
            agree(m, value(t[:-2]), num(p.coeff), 'TeX form of a Pauli shows another coefficient', 'tex', text=t)
        else:
            rest, fac = read_tex(t)
            m.check(fac == lab, 'TeX form of a Pauli shows another operator', 'tex', text=t, word=lab)
            agree(m, value(rest), num(p.coeff), 'TeX form of a Pauli shows another coefficient', 'tex', text=t)
        t = m.call('tex without coefficient', lambda: p.__tex__(coeff=False))
        m.check(read_tex(t) == ('', lab), 'TeX form of a Pauli without coefficient', 'tex', text=t, word=lab)
    for k in range(8):
        if k < 5:
            o = rand_mono(rng, N, sy, scale=sc)
        else:                                # results of earlier operations
            a, b = objs[rng.integers(len(objs))][0], objs[rng.integers(len(objs))][0]
            o = m.call('product', lambda: a * b)
        lab = tuple((o[i].alpha, letter(o[i])) for i in range(len(o)))
        m.check(list(lab) == sorted(lab, key=lambda x: x[0]), 'factors are not in site order', 'repr')
        c = num(o.coeff)
        bare = one(m, o, lab, c, 'monomial')
        rest, fac = read_tex(m.call('tex', o.tex))
        m.check(fac == lab, 'TeX form of a monomial shows other factors', 'tex', word=lab, got=fac)
        agree(m, value(rest), c, 'TeX form of a monomial shows another coefficient', 'tex')
        t = m.call('tex without coefficient', o.tex, coeff=False)
        m.check(read_tex(t) == ('', lab), 'TeX form of a monomial without coefficient', 'tex', text=t, word=lab)
        for o2, lab2, bare2, t2 in objs:
            m.check((bare == bare2) == (lab == lab2) and (t == t2) == (lab == lab2), 'two words share a printed form, or one has two', 'injective', a=lab, b=lab2)
        objs.append((o, lab, bare, t))
        if any(l != 'I' for _, l in lab):
            m.key('mono', ''.join(l for _, l in lab), 'sym' if sy else ('real' if abs(c.imag) < 1e-15 else 'complex'), len(set(s for s, _ in lab)))
    m.sample(example=objs[-1][2], tex=objs[-1][3])


def layers(case, m):
    n = case['n']
    rng = np.random.default_rng(case['seed'])
    np.random.seed(case['seed'] % (1 << 31))
    dev = build.device(n)
    obs = build.observables(case['obs'])
    one_, two, three = ref.words(1, 'XYZ'), ref.words(2, 'XYZ'), ref.words(3, 'XYZ')

    def some(pool):
        return [pool[i] for i in rng.permutation(len(pool))[:int(rng.integers(1, len(pool) + 1))]]
    made = []
    d = some(one_)
    made.append(('local1', opt_tools.LocalLieAlgebraLayer(dev, obs, 1, directions=list(d), trotterize=bool(rng.random() < 0.5)), d))
    if n % 2 == 0:
        d2 = some(two)
        made.append(('local2', opt_tools.LocalLieAlgebraLayer(dev, obs, 2, directions=list(d2)), d2))
    d3 = some(one_ + two)
    made.append(('custom', opt_tools.CustomDirectionLieAlgebraLayer(dev, obs, directions=list(d3)), d3))
    made.append(('customall', opt_tools.CustomDirectionLieAlgebraLayer(dev, obs, directions=None), one_ + two))
    for name in ('stoch', 'squared', 'adapt'):
        made.append((name, make_layer(name, dev, obs), one_ + two))
    if n >= 3:
        made.append(('su8', make_layer('su8', dev, obs), one_ + two + three))
    for name, L, words in made:
        want = sorted((w, *q) for w, q in ref.local_words(n, (1, 2)) if w in words) if name.startswith('custom') else sorted(words)
        got = m.call('direction listing of ' + name, L.get_lie_algebra_directions_strings)
        m.check(sorted(tuple(g) if not isinstance(g, str) else g for g in got) == want, 'layer %s lists other directions' % name, 'listing', stop=True, got=str(got)[:300], want=str(want)[:300])
        row = m.call('printing ' + name, repr, L)
        names = sorted(w[0] for w in want) if name.startswith('custom') else want
        m.check('directions -> ' in row and sorted(row.split('directions -> ')[1].strip().split(', ')) == names, 'the printed row of %s shows other directions' % name, 'row', row=row)
        keep = [tuple(g) if not isinstance(g, str) else g for g in got]
        for _ in range(12 if name == 'stoch' else 3):
            U = ref.haar(rng, 2 ** n)
            if name == 'adapt':
                break
            m.call('applying ' + name, L, U)
        L.get_lie_algebra_directions(ref.haar(rng, 2 ** n))
        got = m.call('direction listing of ' + name, L.get_lie_algebra_directions_strings)
        m.check([tuple(g) if not isinstance(g, str) else g for g in got] == keep, 'the listing of %s changes with use' % name, 'stable')
        m.key('layer', name, n, words if len(words) < 9 else len(words))
    for name in ('zass', 'v2'):
        if layer_ok(name, n):
            L = make_layer(name, dev, obs)
            ls = m.call('direction listing of ' + name, L.get_lie_algebra_directions_strings)
            m.check([sorted(x) for x in ls] == [one_, two, three] if name == 'zass' else [sorted(x) for x in ls][:2] == [one_, two], 'layer %s lists other directions' % name, 'listing', got=str(ls)[:300])
            m.check(isinstance(m.call('printing ' + name, repr, L), str), 'row', 'row')
    m.sample(n=n, custom=d3, local=d)
