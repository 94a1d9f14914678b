from .common import *
ASSUMPTIONS = ASSUME


def jobs(tier):
    out = []
    q = tier == 'quick'
    for b in BACKENDS:
        for N in (1, 2, 3, 4, 6, 8, 16, 64) + (() if q else (12, 24, 32, 96, 128)):
            out.append(job('checks.prims', 'fftp', N, b, backend=b, dim='1d', shape=(N,), lead=(2, 1)))
        out.append(job('checks.prims', 'fftp', 4, b, backend=b, dim='1d', shape=(4,), lead=(4,)))
        out.append(job('checks.prims', 'fftp', 4, b, backend=b, dim='1d', shape=(4,), lead=(1, 2, 4)))
        for s in ((2, 3), (3, 2), (4, 2), (1, 4), (2, 2), (12, 8)) + (() if q else ((4, 6), (6, 4), (8, 4), (16, 24))):
            out.append(job('checks.prims', 'fftp', 2 * s[0] * s[1], b, backend=b, dim='2d', shape=s, lead=(2,)))
        out.append(job('checks.prims', 'fftp', 8, b, backend=b, dim='2d', shape=(2, 2), lead=(2, 3)))
        for s in ((2, 3, 4), (4, 1, 2), (2, 2, 2), (6, 4, 4)) + (() if q else ((3, 4, 2), (4, 2, 4), (6, 8, 12))):
            out.append(job('checks.prims', 'fftp', 2 * s[0] * s[1] * s[2], b, backend=b, dim='3d', shape=s, lead=(2,)))
    return out
