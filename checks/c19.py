"""C19: circular translations leave every 3D coefficient unchanged; the storage order of the azimuthal orders is irrelevant.
Exact transforms: the moduli of the translated volume are the translated moduli, so the integrals coincide as polynomials."""
from .fam import *
ASSUMPTIONS = ASSUME + ['filters are independent generic complex values (nothing about solid harmonics is used)',
                        'translations by one step along each axis generate all translations']


def roll(backend, x, off):
    ax = (-3, -2, -1)
    if backend == 'torch':
        import torch
        return torch.roll(x, off, ax).contiguous()
    if backend == 'tensorflow':
        import tensorflow as tf
        nd = len(x.shape)
        return tf.roll(x, list(off), [nd + a for a in ax])
    if backend == 'jax':
        import jax.numpy as jnp
        return jnp.roll(x, off, ax)
    return np.roll(x, off, ax)


def shift(r, backend, cfg, off, n, batch=(1,)):
    S = make('3d', backend, **cfg)
    key = '3d %s %s: translation by %s' % (backend, nm(cfg), off)
    r.bound('%s, translation %s, batch %s' % (nm(cfg), off, batch))

    def prog(x):
        return [S(x), S(roll(backend, x, off))]

    def rel(o, x):
        return [('coefficients of the translated volume', o[1], o[0])]

    old = poly.reset

    def reset(*a, **k):
        old(*a, **k)
        C.expand = True
    poly.reset = reset
    try:
        check_rel(r, key, prog, rel, [In('x', tuple(batch) + tuple(cfg['shape']))], backend, n=n, exact=True, tol=tol('3d', backend),
                  info=dict(cfg=cfg, offset=off))
    finally:
        poly.reset = old


def reorder(vals, how):
    out = []
    for v in vals:
        M = v.shape[1]
        p = list(range(M))
        if how == 'reversed':
            p = p[::-1]
        elif how == 'rotated':
            p = p[1:] + p[:1]
        else:
            p = sorted(p, key=lambda m: (m % 2, -m))
        out.append(v[:, p])
    return out


def orders(r, backend, cfg, how):
    """the same filters, their azimuthal orders stored in another order"""
    A, B = (make3d(backend, **cfg) for _ in range(2))
    vals = [generic(f.shape, 100 + k, True, den=16) for k, f in enumerate(filters3d(A))]
    put3d(A, backend, vals)
    put3d(B, backend, reorder(vals, how))
    key = '3d %s %s: azimuthal orders %s' % (backend, nm(cfg), how)
    r.bound('%s, azimuthal orders %s' % (nm(cfg), how))
    check_rel(r, key, lambda x: [A(x), B(x)], lambda o, x: [('coefficients', o[1], o[0])],
              [In('x', (1,) + tuple(cfg['shape']))], backend, tol=tol('3d', backend), info=dict(cfg=cfg, how=how))


SH = [(dict(J=1, shape=(2, 2, 2), L=1), 4), (dict(J=1, shape=(4, 1, 2), L=1, integral_powers=(1., 2.)), 4),
      (dict(J=0, shape=(3, 2, 1), L=2), 12), (dict(J=1, shape=(2, 2, 1), L=2, rotation_covariant=False), 4),
      (dict(J=1, shape=(2, 3, 2), L=0, max_order=1), 12)]
SH2 = [(dict(J=2, shape=(2, 2, 2), L=1), 4), (dict(J=1, shape=(4, 2, 2), L=0), 4), (dict(J=1, shape=(3, 1, 2), L=2), 12),
       (dict(J=2, shape=(2, 1, 4), L=1, integral_powers=(0.5, 2., 3.)), 4), (dict(J=0, shape=(4, 4, 2), L=1), 4)]
OR = [dict(J=1, shape=(2, 3, 2), L=2), dict(J=2, shape=(2, 2, 2), L=1), dict(J=0, shape=(3, 3, 2), L=3, integral_powers=(0.5,))]


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = []
    for b in BACKENDS:
        for i, (cfg, n) in enumerate(SH + ([] if q else SH2)):
            s = cfg['shape']
            for ax in range(3):
                if s[ax] == 1 or (q and b != 'numpy' and (ax + i) % 2):
                    continue
                off = tuple(1 if k == ax else 0 for k in range(3))
                out.append(job('checks.c19', 'shift', 15, b, backend=b, cfg=cfg, off=off, n=n, limit=1500, batch=(1,) if i else (2,)))
            out.append(job('checks.c19', 'shift', 15, b, backend=b, cfg=cfg, off=tuple(k // 2 - (k > 2) for k in s), n=n, limit=1500))
        for cfg in OR if not q or b == 'numpy' else OR[:2]:
            for how in ('reversed', 'rotated', 'interleaved'):
                out.append(job('checks.c19', 'orders', 6, b, backend=b, cfg=cfg, how=how, limit=1500))
    for b in ('numpy', 'torch', 'tensorflow', 'jax'):
        for s, qs in (((2, 40, 1, 3), (0.5, 1., 2.)), ((1, 2, 48, 1), (1., 3., 0.5)), ((1, 1, 2, 70), (2., 0.5, 1.))) + (
                () if tier == 'quick' else (((1, 130, 2, 2), (0.5, 1., 2., 4.)), ((3, 8, 8, 8), (0.5, 2., 1.)), ((1, 2, 130, 3), (1., 0.5, 2.)), ((1, 3, 2, 130), (1., 0.5, 2.)))):
            out.append(job('checks.prims', 'integrals', 4, b, backend=b, shape=s, powers=qs))
    return out
