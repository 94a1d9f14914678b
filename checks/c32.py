from .fam import *
ASSUMPTIONS = ASSUME + [
    'every real factor a is written s*b*b with s = 1 or -1 and b a symbolic real',
    'filter values are independent generic values per filter and resolution']


def absq(b, q):
    """|b*b|**q"""
    if is_sym(b) or isinstance(b, np.ndarray) and b.dtype == object:
        return symarr._map(lambda z: (abs(lift(z)) ** int(2 * q)), obj(b))
    return np.abs(np.asarray(b)) ** (2 * q)


def powers(kind, cfg, a):
    """exponent for every entry of the last axis (3D integral powers)"""
    return cfg.get('integral_powers', (0.5, 1., 2.)) if kind == '3d' else None


def zeroth(kind, cfg, lab, a, nb):
    """index of the order-zero rows of an array output, or whether this entry is order zero"""
    if kind == '3d':
        return []
    if lab != 'array':
        return None if len(lab) else 'all'
    if kind == 'jtfs' and cfg.get('format') == 'joint':
        return []
    return [0]


def times(x, s):
    if is_sym(x) or x.dtype == object:
        return symarr._map(lambda z: lift(z) * s, obj(x))
    return x * s


def scale(r, kind, backend, cfg, sign):
    S = make(kind, backend, **cfg)
    B = (2,) if kind == '3d' else (1,)
    sig = prepad_shape(kind, cfg)
    key = '%s %s %s: S(%sb^2 x)' % (kind, backend, nm(cfg), '-' if sign < 0 else '')
    r.bound('%s %s: every input and every real factor' % (kind, nm(cfg)))
    qs = cfg.get('integral_powers', (0.5, 1., 2.))

    def prog(x, b):
        return [norm(kind, S(x * (b * b * sign))), norm(kind, S(x))]

    def rel(o, x, b):
        y, z = o
        rows = [('labels', [l for l, _ in y], [l for l, _ in z])]
        bb = absq(b, 1)[0]
        for (lab, u), (_, v) in zip(y, z):
            if kind == '3d':
                for i, q in enumerate(qs):
                    rows.append(('power %s' % q, u[..., i], times(v[..., i], absq(b, q)[0])))
                continue
            zr = zeroth(kind, cfg, lab, u, 1)
            if zr is None:
                rows.append(('path %s' % (lab,), u, times(v, bb)))
            elif zr == 'all':
                rows.append(('order zero', u, times(v, bb * sign)))
            else:
                n = u.shape[1]
                for i in range(n):
                    rows.append(('coefficient %d' % i, u[:, i], times(v[:, i], bb * (sign if i in zr else 1))))
        return rows
    check_rel(r, key, prog, rel, [In('x', B + sig), In('b', (1,))], backend, info=dict(kind=kind, cfg=cfg, sign=sign), tol=tol(kind, backend))


def zero(r, kind, backend, cfg):
    S = make(kind, backend, **cfg)
    sig = prepad_shape(kind, cfg)
    key = '%s %s %s: zero input' % (kind, backend, nm(cfg))

    def prog(x):
        return norm(kind, S(x * 0.))

    def rel(o, x):
        return [('zero signal gives zero: %s' % (lab,), a, np.zeros(a.shape)) for lab, a in o]
    check_rel(r, key, prog, rel, [In('x', (1,) + sig)], backend, info=dict(kind=kind, cfg=cfg), tol=1e-290)


def additive(r, kind, backend, cfg, n):
    """exact transform: order zero of a sum"""
    S = make(kind, backend, out_type='list', **cfg)
    sig = prepad_shape(kind, cfg)
    key = '%s %s %s: order zero is additive' % (kind, backend, nm(cfg))

    def order0(o):
        return [p['coef'] for p in o if len(p['n']) == 0]

    def prog(x, y):
        return [order0(S(x + y)), order0(S(x)), order0(S(y))]

    def rel(o, x, y):
        rows = [('one order-zero coefficient', [len(t) for t in o], [1, 1, 1])]
        for a, b, c in zip(*o):
            if isinstance(a, np.ndarray) and (is_sym(a) or a.dtype == object):
                a, b, c = (symarr._map(lift, obj(t)) for t in (a, b, c))
            rows.append(('order zero', a, b + c))
        return rows
    check_rel(r, key, prog, rel, [In('x', (1,) + sig), In('y', (1,) + sig)], backend, info=dict(kind=kind, cfg=cfg), exact=True, n=n)


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = []
    for b in BACKENDS:
        for i, (kind, cfg) in enumerate(QUICK + (MORE if b == 'numpy' or not q else [])):
            for s in (-1, 1) if b == 'numpy' or not q else (-1,):
                out.append(job('checks.c32', 'scale', 10, b, kind=kind, backend=b, cfg=cfg, sign=s, limit=800))
            if i < len(QUICK) or not q:
                out.append(job('checks.c32', 'zero', 5, b, kind=kind, backend=b, cfg=cfg, limit=800))
    for b in BACKENDS if not q else ('numpy', 'torch'):
        out.append(job('checks.c32', 'additive', 10, b, kind='1d', backend=b, cfg=dict(J=1, shape=3, Q=1, max_order=1), n=4, limit=800))
        out.append(job('checks.c32', 'additive', 10, b, kind='2d', backend=b, cfg=dict(J=1, shape=(2, 2), L=1, max_order=1), n=12, limit=800))
    return out
