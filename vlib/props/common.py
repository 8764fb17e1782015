"""Shared workload pieces: layer zoo and safe runners around the optimizers."""
import numpy as np
from .. import ref, gen, build
from oranssi import opt_tools, optimizers

LAYERS = ['local1', 'local1t', 'local2', 'local2t', 'custom', 'customt', 'customall', 'stoch', 'squared', 'su8', 'zass']


def layer_ok(name, n):
    if name.startswith('local2'):
        return n % 2 == 0
    if name in ('su8', 'zass'):
        return n >= 3
    if name in ('adapt',):
        return n >= 2
    if name == 'v2':
        return n == 2
    if name in ('custom', 'customt'):
        return True
    return True


def pick_layers(rng, n, k, extra=()):
    pool = [l for l in LAYERS + list(extra) if layer_ok(l, n)]
    return [pool[rng.integers(len(pool))] for _ in range(k)]


def make_layer(name, dev, obs, eta=None, **kw):
    if eta is not None:
        kw['eta'] = eta
    if name.startswith('local'):
        return opt_tools.LocalLieAlgebraLayer(dev, obs, int(name[5]), trotterize=name.endswith('t'), **kw)
    if name in ('custom', 'customt'):
        dirs = ['X', 'Y', 'ZZ', 'XZ'] if len(dev.wires) > 1 else ['X', 'Y']
        return opt_tools.CustomDirectionLieAlgebraLayer(dev, obs, directions=dirs, trotterize=name.endswith('t'), **kw)
    if name == 'customall':
        return opt_tools.CustomDirectionLieAlgebraLayer(dev, obs, directions=None, **kw)
    if name == 'stoch':
        return opt_tools.StochasticLieAlgebraLayer(dev, obs, **kw)
    if name == 'squared':
        return opt_tools.SquaredLieAlgebraLayer(dev, obs, **kw)
    if name == 'su8':
        return opt_tools.SU8_AlgebraLayer(dev, obs, **kw)
    if name == 'zass':
        return opt_tools.ZassenhausLayer(dev, obs, **kw)
    if name == 'adapt':
        return opt_tools.AdaptVQELayer(dev, obs, **kw)
    if name == 'v2':
        return opt_tools.ZassenhausLayerV2(dev, obs, **kw)
    raise ValueError(name)


def flags(seed):
    """Options that a layer accepts and that do not change what it promises."""
    return [{}, {'trotterize': True}, {'unitary_error_check': True}, {'trotterize': True, 'unitary_error_check': True}][seed // 7 % 4]


def floats(costs):
    return [float(c) for c in costs]


def gates_only(circ):
    return [g for g in circ if g['g'] not in ('BasisState', 'QubitStateVector')]


def spectrum(H):
    w = np.linalg.eigvalsh(H)
    return float(w[0]), float(w[-1])
