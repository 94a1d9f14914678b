"""Temporal support: the real compute_temporal_support on symbolic filters and criteria."""
import warnings
from .free import *
from vk.poly import Z
ASSUMPTIONS = ASSUME + ['filters are given by their time-domain values; the inverse transform inside the function returns exactly these (C04)']


def support(r, rows, N, signed):
    r.bound('%d filter(s) of length %d with every %s value and every criterion' % (rows, N, 'real' if signed else 'non-negative'))
    K = N // 2
    names = [['h%d_%d' % (i, k) for k in range(N)] for i in range(rows)]

    def body(v):
        h = np.empty((rows, N), dtype=object)
        for i in range(rows):
            for k in range(N):
                h[i, k] = v[names[i][k]]
        sym = isinstance(v['c'], Z)
        F = shim.load('kymatio.scattering1d.filter_bank')
        if sym:
            hf = SymArray(poly.fft_axes(h, (1,), False), np.dtype('complex128'))
        else:
            h = h.astype(float)
            hf = np.fft.fft(h, axis=1)
        c = v['c'] if sym else float(v['c'])
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            n = F.compute_temporal_support(hf, criterion_amplitude=c)
        warned = any(issubclass(w.category, UserWarning) and not issubclass(w.category, DeprecationWarning) for w in ws)
        n = int(n)
        ab = [[abs(h[i, k]) for k in range(K)] for i in range(rows)]
        # tails from every index on; slack only for the floating-point replay
        tl = [[sum(a[t:], lift(0) if sym else 0.) for a in ab] for t in range(K + 1)]

        def le(t):
            out = True
            for x in tl[t]:
                e = x <= c
                out = e if out is True else (out & e if sym else out and e)
            return out
        cs = [('between one sample and half of the filter', 1 <= n and n <= max(K, 1) if K else n == 0)]
        if not K or not 1 <= n <= K:
            return cs
        some = [le(t) for t in range(K)]
        if sym:
            anyq = some[0]
            for e in some[1:]:
                anyq = anyq | e
            none = ~anyq if isinstance(anyq, SBool) else not anyq
        else:
            anyq = any(some)
            none = not anyq
        if warned:
            cs.append(('warning only when no window qualifies', none))
            cs.append(('half of the filter when no window qualifies', n == K))
        else:
            cs.append(('a window that does not qualify is announced', anyq))
            cs.append(('the discarded tail is within the criterion', some[n - 1]))
            for t in range(n - 1):
                e = some[t]
                cs.append(('no smaller window qualifies (%d)' % (t + 1), ~e if isinstance(e, SBool) else not e))
        return cs
    vs = {k: Real() for row in names for k in row}
    vs['c'] = Real()

    def assume(v):
        out = [v['c'] >= 0]
        if not signed:
            out += [v[k] >= 0 for row in names for k in row]
        return out
    rs = np.random.RandomState(N + rows)
    smp = []
    for c in (.001, .3, 1e9, 1.):
        d = {k: abs(float(x)) for k, x in zip((k for row in names for k in row), rs.randint(1, 64, rows * N) / 32.)}
        if c < .01:
            d = {k: (0. if int(k.split('_')[1]) > 1 and int(k.split('_')[1]) < N - 1 else x) for k, x in d.items()}
        smp.append(dict(d, c=c))
    explore_free(r, 'support of %d filters of length %d%s' % (rows, N, '' if signed else ' (non-negative)'), body, vs, assume, samples=smp,
                 max_paths=3000, seconds=250)


def default(r):
    """default criterion of one thousandth"""
    def body(v):
        F = shim.load('kymatio.scattering1d.filter_bank')
        e = v['e']
        h = np.empty((1, 8), dtype=object)
        h[...] = lift(0) if isinstance(e, Z) else 0.
        h[0, 0] = lift(1) if isinstance(e, Z) else 1.
        h[0, 2] = e
        hf = SymArray(poly.fft_axes(h, (1,), False), np.dtype('complex128')) if isinstance(e, Z) else np.fft.fft(h.astype(float), axis=1)
        n = int(F.compute_temporal_support(hf))
        n2 = int(F.compute_temporal_support(hf, criterion_amplitude=1e-3))
        return [('default criterion is 0.001', n == n2), ('support of a filter with a small echo', (n == 2) == bool(e <= 1e-3))]
    r.bound('default criterion: every echo amplitude')
    explore_free(r, 'default criterion', body, dict(e=Real()), lambda v: [v['e'] >= 0], samples=[dict(e=.01), dict(e=.0001)])


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = [job('checks.c11', 'default', 1)]
    for rows, N, sg in ((1, 2, True), (1, 4, True), (1, 5, False), (1, 8, False), (2, 4, True), (2, 6, False), (2, 8, False), (3, 4, False), (1, 12, False)) + (
            () if q else ((1, 16, False), (1, 24, False), (2, 12, False), (2, 16, False), (3, 8, False), (4, 6, False), (1, 8, True), (2, 7, True), (1, 9, False)) + (((1, 48, False), (2, 24, False), (4, 12, False), (3, 12, False), (2, 8, True), (1, 12, True)) if deep else ())):
        out.append(job('checks.c11', 'support', rows * N, rows=rows, N=N, signed=sg, limit=600))
    return out
