from .common import *
ASSUMPTIONS = ASSUME


def jobs(tier):
    out = []
    q, deep = False, tier != 'quick'
    for b in BACKENDS:
        for dim, shapes in (('1d', [(4,), (1,), (3,)]), ('2d', [(2, 3), (4, 2), (2, 2)]), ('3d', [(2, 3, 2), (2, 2, 2)])):
            for s in shapes:
                for lead in ((2, 1), (3,), ()) + (() if q else ((2, 2, 1),) + (((1, 2, 1, 2), (5,)) if deep else ())):
                    if dim == '3d' and lead == ():
                        continue
                    out.append(job('checks.prims', 'cdgmm', 4, b, backend=b, dim=dim, shape=s, lead=lead))
            big = dict(zip(('1d', '2d', '3d'), ((64,), (16, 24), (8, 4, 6))))[dim]
            out.append(job('checks.prims', 'cdgmm', 6, b, backend=b, dim=dim, shape=big, lead=(2,)))
            out.append(job('checks.prims', 'modulus', 6, b, backend=b, dim=dim, shape=big))
            out.append(job('checks.prims', 'modulus', 2, b, backend=b, dim=dim, shape=(2,) + shapes[0]))
            out.append(job('checks.prims', 'modulus', 2, b, backend=b, dim=dim, shape=shapes[0]))
            out.append(job('checks.prims', 'operands_kept', 2, b, backend=b, dim=dim, shape=shapes[0], lead=(2,)))
        for s in ((2, 1, 4), (1, 3), (2, 3, 1), (2, 2, 2, 3), (2, 1, 200)):
            out.append(job('checks.prims', 'avg_global', 1, b, backend=b, shape=s))
    for b in BACKENDS if deep else ():
        for dim, s in (('1d', (500,)), ('2d', (48, 40)), ('3d', (12, 10, 8))):
            out.append(job('checks.prims', 'cdgmm', 20, b, backend=b, dim=dim, shape=s, lead=(2,)))
            out.append(job('checks.prims', 'modulus', 20, b, backend=b, dim=dim, shape=s))
    return out
