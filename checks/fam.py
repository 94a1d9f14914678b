"""The four families of transforms behind one interface (used by the properties that concern all of them)."""
from .common import *
from .casc import *

SIG = {'1d': 1, '2d': 2, '3d': 3, 'jtfs': 1}
MAKE = {'1d': make1d, '2d': make2d, '3d': make3d, 'jtfs': makej}


FILTERS = {}


def nm(cfg):
    return ' '.join('%s=%s' % (k, str(v).replace(' ', '')) for k, v in sorted(cfg.items()))


def shape(kind, cfg):
    s = cfg['shape']
    return (s,) if isinstance(s, int) else tuple(s)


def make(kind, backend, seed=5, **cfg):
    S = MAKE[kind](backend, **cfg)
    install(kind, S, backend, seed)
    return S


def install(kind, S, backend, seed=5):
    """generic, mutually independent filter values"""
    if kind == '3d':
        put3d(S, backend, [generic(f.shape, 700 * seed + k, True, den=16) for k, f in enumerate(filters3d(S))])
    else:
        F = Filters(S, backend, banks2d(S) if kind == '2d' else banks1d(S))
        F.randomise(seed)
        FILTERS[id(S)] = F
        return F


def norm(kind, o):
    """[(label, array)] of an output in any format"""
    if isinstance(o, dict):
        return [[list(map(int, k)), o[k]] for k in sorted(o, key=lambda k: (len(k), k))]
    if isinstance(o, list):
        return [[list(map(int, p['n'])), p['coef']] for p in o]
    return [['array', o]]


def tol(kind, backend):
    if kind == '3d':
        return 3e-4 if backend == 'tensorflow' else 3e-5
    return None


def stackb(xs):
    if any(is_sym(x) for x in xs):
        return SymArray(np.stack([obj(x) for x in xs], axis=0), np.dtype('complex128'))
    return np.stack(xs, axis=0)


QUICK = [('1d', dict(J=2, shape=8, Q=1)), ('1d', dict(J=2, shape=7, Q=1, T=0, out_type='list')),
         ('1d', dict(J=2, shape=6, Q=1, T='global', out_type='dict')),
         ('2d', dict(J=1, shape=(3, 4), L=2)), ('2d', dict(J=2, shape=(4, 5), L=1, out_type='list')),
         ('3d', dict(J=1, shape=(2, 3, 2), L=1)), ('3d', dict(J=0, shape=(2, 2, 2), L=2, rotation_covariant=False)),
         ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1)), ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1, format='joint', out_type='list')),
         ('jtfs', dict(J=2, shape=7, Q=1, J_fr=1, T=0, F=0, out_type='dict'))]
MORE = [('1d', dict(J=3, shape=12, Q=2)), ('1d', dict(J=3, shape=11, Q=(2, 2), stride=2, out_type='dict')),
        ('1d', dict(J=2, shape=9, Q=1, T=3, max_order=1)), ('1d', dict(J=3, shape=16, Q=1, T=0, out_type='dict')),
        ('2d', dict(J=2, shape=(8, 6), L=2)), ('2d', dict(J=2, shape=(5, 4), L=3, max_order=1, out_type='list')),
        ('2d', dict(J=3, shape=(8, 9), L=1)), ('2d', dict(J=1, shape=(4, 4), L=2, pre_pad=True)),
        ('3d', dict(J=2, shape=(2, 2, 3), L=2, integral_powers=(1., 2.))), ('3d', dict(J=1, shape=(3, 3, 3), L=2, max_order=1)),
        ('jtfs', dict(J=3, shape=11, Q=1, J_fr=2, stride=2, F=2, format='joint')),
        ('jtfs', dict(J=2, shape=9, Q=2, J_fr=2, T=3, F=1, format='joint', out_type='dict')),
        ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1, T='global', F='global', format='joint')),
        ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1, stride=1, stride_fr=1, out_type='list'))]


def prepad_shape(kind, cfg):
    if kind == '2d' and cfg.get('pre_pad'):
        return tuple(padded2d(m, cfg['J']) for m in cfg['shape'])
    return shape(kind, cfg)
