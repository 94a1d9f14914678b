from .common import *
ASSUMPTIONS = ASSUME


def jobs(tier):
    out = []
    q, deep = False, tier != 'quick'
    for b in BACKENDS:
        for N in (1, 2, 4, 6, 8, 12, 16, 48, 64) + (() if q else (24, 32, 96, 128) + ((100, 256, 360) if deep else ())):
            out.append(job('checks.prims', 'sub1d', N / 2, b, backend=b, N=N))
        out.append(job('checks.prims', 'sub1d', 2, b, backend=b, N=4, lead=(2, 3, 1)))
        for M, N in ((1, 1), (2, 2), (4, 4), (2, 4), (4, 2), (6, 4), (16, 8)) + (() if q else ((8, 8), (4, 8), (12, 8), (16, 24), (32, 8)) + (((24, 36), (32, 32), (48, 20)) if deep else ())):
            out.append(job('checks.prims', 'sub2d', M * N, b, backend=b, M=M, N=N, B_=1 if M * N > 16 else 2))
        out.append(job('checks.prims', 'sub2d', 8, b, backend=b, M=8, N=12, exact=False))
    return out
