import itertools
from .fam import *
ASSUMPTIONS = ASSUME + ['filter values are independent generic values per filter and resolution']


def batch(r, kind, backend, cfg, shapes):
    S = make(kind, backend, **cfg)
    sig = prepad_shape(kind, cfg)
    for B in shapes:
        key = '%s %s %s: batch %s' % (kind, backend, nm(cfg), B)
        r.bound('%s %s: batch shapes %s' % (kind, nm(cfg), list(shapes)))
        B = tuple(B)

        def prog(x):
            whole = norm(kind, S(x))
            each = [norm(kind, S(x[i])) for i in np.ndindex(*B)]
            return [whole, each]

        def rel(o, x):
            whole, each = o
            rows = []
            for q, (lab, a) in enumerate(whole):
                rows.append(('%s keeps the batch shape' % (lab,), a.shape[:len(B)], B))
                if a.shape[:len(B)] != B:
                    continue
                for i, e in zip(np.ndindex(*B), each):
                    rows.append(('number of coefficients of element %s' % (i,), len(e), len(whole)))
                    if q < len(e):
                        rows.append(('label of element %s' % (i,), e[q][0], lab))
                        rows.append(('%s of element %s' % (lab, i), a[i], e[q][1]))
            return rows
        check_rel(r, key, prog, rel, [In('x', B + sig)], backend, info=dict(kind=kind, cfg=cfg, batch=B), tol=tol(kind, backend))


def refuse(r, kind, backend, cfg):
    S = make(kind, backend, **cfg)
    sig = prepad_shape(kind, cfg)
    for k in range(len(sig)):
        key = '%s %s %s: input with %d axes is refused' % (kind, backend, nm(cfg), k)
        check_equal(r, key, lambda x: S(x), None, [In('x', sig[len(sig) - k:])], backend, kym=False,
                    expect_error=(RuntimeError, ValueError))


SHAPES = [((), (1,), (3,), (2, 3)), ((2,), (1, 3, 2))]


GRID = [s for n in range(4) for s in itertools.product((1, 2), repeat=n)]
SMALL = [('1d', dict(J=1, shape=4, Q=1)), ('2d', dict(J=1, shape=(2, 3), L=1)), ('3d', dict(J=0, shape=(2, 1, 2), L=1, integral_powers=(1., 2.))),
         ('jtfs', dict(J=2, shape=5, Q=1, J_fr=1))]


def jobs(tier):
    q = tier == 'quick'
    out = []
    for b in BACKENDS:
        for kind, cfg in SMALL:
            out.append(job('checks.c23', 'batch', 15, b, kind=kind, backend=b, cfg=cfg, limit=1200, shapes=[s for s in GRID if s not in ((2, 2, 2),)]))
    for b in BACKENDS:
        for i, (kind, cfg) in enumerate(QUICK + ([] if q and b != 'numpy' else MORE)):
            if q and b != 'numpy' and i in (1, 8):
                continue
            out.append(job('checks.c23', 'batch', 15, b, kind=kind, backend=b, cfg=cfg, limit=1200,
                           shapes=SHAPES[0] + SHAPES[1] if not q else (SHAPES[i % 2] if b == 'numpy' else SHAPES[i % 2][-2:])))
        for kind, cfg in (QUICK[0], QUICK[3], QUICK[5], QUICK[7]):
            out.append(job('checks.c23', 'refuse', 3, b, kind=kind, backend=b, cfg=cfg))
    return out
