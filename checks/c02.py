from .common import *
ASSUMPTIONS = ASSUME


def jobs(tier):
    out = []
    deep = tier != 'quick'
    Ns = range(1, 13) if deep else range(1, 9)
    for b in BACKENDS:
        for N in Ns:
            out.append(job('checks.prims', 'pad1d', N * N, b, backend=b, N=N, limit=600))
        if b != 'torch':        # torch reflection padding is defined for (batch, channel, time) only
            out.append(job('checks.prims', 'pad1d', 4, b, backend=b, N=2, batch=(1, 2), limit=600))
        out.append(job('checks.prims', 'unpad1d', 6, b, backend=b, N=8))
        for N in (33, 64, 100, 257) + ((500, 1025) if deep else ()):
            out.append(job('checks.prims', 'pad1d', 5, b, backend=b, N=N, some=True, limit=600))
            out.append(job('checks.prims', 'unpad1d', 3, b, backend=b, N=N))
        for F, T in ((3, 2), (5, 1), (12, 20), (4, 4), (40, 3)) + (((64, 30), (7, 11)) if deep else ()):
            out.append(job('checks.prims', 'freqaxis', 5, b, backend=b, F=F, T=T))
    return out
