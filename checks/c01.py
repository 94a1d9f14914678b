from .symint import *
ASSUMPTIONS = ASSUME + ['the support of the averaging filter is an arbitrary integer between 0 and the signal length '
                        '(its value is the subject of C11)', 'the sampled Gaussian itself is not evaluated here']


class Flat:
    def reshape(self, *a):
        return self


def stubs(sup):
    import kymatio.scattering1d.filter_bank as fb
    return Swap((fb.gauss_1d, lambda *a, **k: Flat()), (fb.compute_temporal_support, lambda *a, **k: sup))


def cdiv(a, b):
    return -((-a) // b)


def build(J, N, T, sup, stride=None, over=0):
    from kymatio.scattering1d.frontend.base_frontend import ScatteringBase1D
    S = ScatteringBase1D(J, N, 1, T, stride, 2, over)
    with stubs(sup):
        S.build()
    return S


def conds(S, J, N, T, l2t=None):
    P = S._N_padded
    pl, pr = S.pad_left, S.pad_right
    out = [('padded length is a power of two', P in [2 ** k for k in range(0, 40)]), ('padded length holds the signal', P >= N),
           ('sides add up', pl + N + pr == P), ('left padding is not negative', pl >= 0),
           ('right padding is not negative', pr >= 0), ('left padding shorter than the signal', pl < N),
           ('right padding shorter than the signal', pr < N), ('sides differ by at most one', abs(pl - pr) <= 1)]
    lT = S.log2_T
    out += [('log2_T is the floor of log2(T)', (2 ** lT <= T) & (T < 2 ** (lT + 1)) if not isinstance(T, int)
             else 2 ** lT <= T < 2 ** (lT + 1))]
    for k in range(0, max(lT, J) + 1):
        a, b, s = S.ind_start[k], S.ind_end[k], 2 ** k
        out += [('resolution %d: first returned sample is the first grid point inside' % k, a == cdiv(pl, s)),
                ('resolution %d: last returned sample is the last grid point inside' % k, b == cdiv(pl + N, s)),
                ('resolution %d: not empty' % k, a < b),
                ('resolution %d: inside the padded extent' % k, b * s <= P + s - 1),
                ('resolution %d: inside the subsampled signal' % k, b <= P // s),
                ('resolution %d: starts at most a step from the border' % k, (a * s - pl < s)),
                ('resolution %d: ends at most a step from the border' % k, (pl + N - 1 - (b - 1) * s < s))]
    return out


def grid(r, J, kind, nmin, nmax, stride=None, over=0, sup0=None):
    key = '1D grid J=%d T=%s N in %d..%d%s%s' % (J, kind, nmin, nmax, '' if stride is None else ' stride=%d' % stride,
                                     '' if not over else ' oversampling=%d' % over)
    r.bound('every length %d <= N <= %d, every support %s%s (%s)' % (nmin, nmax, sup0 or '0..N', ', every integer 1 <= T <= N'
                                                                         if kind == 'int' else '', key))
    if sup0 is not None:
        key += ' support %s' % sup0
    names = ['N'] + (['sup'] if sup0 is None else []) + (['T'] if kind == 'int' else [])

    def assume(v):
        a = [v['N'] >= nmin, v['N'] <= nmax]
        if sup0 is None:
            a += [v['sup'] >= 0, v['sup'] <= v['N']]
        if kind == 'int':
            a += [v['T'] >= (1 if stride is None else stride), v['T'] <= v['N']]
            if over:
                a += [v['T'] >= 2 ** over]
        return a

    def body(v):
        N = v['N']
        sup = v['sup'] if sup0 is None else 0 if sup0 == '0' else N
        T = v['T'] if kind == 'int' else kind
        Te = T if kind == 'int' else 2 ** J
        S = build(J, N, T, sup, stride, over)
        out = conds(S, J, N, Te)
        out.append(('averaging kind', S.average == {0: False, 'global': 'global'}.get(kind, 'local')))
        out.append(('averaging length', S.T == Te))
        ls = S.log2_stride
        if stride is not None:
            out += [('stride as requested', 2 ** ls == stride), ('stride property', S.stride == stride)]
        elif over:
            out += [('stride from oversampling', ls == S.log2_T - over)]
        else:
            out += [('stride is the averaging scale', ls == S.log2_T)]
        out.append(('the output resolution has a grid', (ls in S.ind_start) and (ls in S.ind_end)))
        return out
    smp = [dict(N=n, sup=s, T=t) for n, s, t in ((nmin, 0, 1), (nmin + 1, nmin // 2, 2 ** J), (nmax, 7, 2 ** J))
           if stride is None and not over]
    explore(r, key, body, names, assume, sample=smp, bounds={n: (0, nmax) for n in names})


def jtfs(r, J, Q, J_fr):
    """padding along log-frequency: holds the input with margin, a multiple of every stride in use"""
    from kymatio.scattering1d.frontend.base_frontend import TimeFrequencyScatteringBase
    for kind in (None, 0, 'global', 'int'):
        key = 'JTFS frequency padding J=%d Q=%d J_fr=%d F=%s' % (J, Q, J_fr, kind)
        Nin = (J + 1) * Q
        r.bound(key + ', every integer F between 1 and %d' % Nin)

        def body(v):
            F = v['F'] if kind == 'int' else kind
            S = TimeFrequencyScatteringBase(J, J_fr, Q, 2 ** J, F=F)
            S.create_filters = lambda *a: None
            from kymatio.scattering1d.frontend.base_frontend import ScatteringBase1D
            keep = ScatteringBase1D.create_filters
            ScatteringBase1D.create_filters = lambda s: None
            try:
                with stubs(1):
                    S.build()
            finally:
                ScatteringBase1D.create_filters = keep
            P = S._N_padded_fr
            Fe = F if kind == 'int' else 2 ** J_fr
            lF = S.log2_F
            m = Fe if Fe < 2 ** J_fr else 2 ** J_fr
            return [('holds the first-order paths with margin', P >= Nin + 8 * m), ('multiple of 2**J_fr', P % 2 ** J_fr == 0),
                    ('multiple of the stride', P % 2 ** S.log2_stride_fr == 0), ('no more than needed', P < Nin + 8 * m + 2 ** max(lF, J_fr)),
                    ('F', S.F == Fe), ('averaging kind', S.average_fr == {0: False, 'global': 'global'}.get(kind, 'local'))]
        explore(r, key, body, ['F'], lambda v: [v['F'] >= 1, v['F'] <= Nin], sample=[dict(F=1), dict(F=Nin)], bounds=dict(F=(1, Nin)))


def jobs(tier):
    q = tier == 'quick'
    out = []
    top = 12 if q else 20

    def add(J, kind, octs=None, **k):
        for o in range(max(J, 0), top):
            if octs is None or (o - J) in octs:
                for s0 in ('0', 'N') if kind == 'int' else (None,):
                    out.append(job('checks.c01', 'grid', 4 + (o - J) + 9 * (kind == 'int'), J=J, kind=kind,
                                   nmin=2 ** o, nmax=2 ** (o + 1) - 1, sup0=s0, limit=800, **k))
    for J in range(0, 10 if q else 15):
        add(J, None, octs=(0, 1, 3) if q else None)
        if J < 7 or not q:
            add(J, 'int', octs=(0, 2) if q and J < 4 else (0,) if q else None)
        if J in (1, 4) or not q:
            add(J, 0, octs=(0, 2) if q else None)
            add(J, 'global', octs=(0, 2) if q else None)
    for J in (2, 3) if q else range(1, 9):
        for st in range(0, 4):
            if 2 ** st <= 2 ** J:
                add(J, None, octs=(0,), stride=2 ** st)
                add(J, 'int', octs=(1,), stride=2 ** st)
        for ov in (1, 2):
            if ov <= J:
                add(J, None, octs=(1,), over=ov)
                add(J, 'int', octs=(0,), over=ov)
    for J in (1, 2, 4, 8):
        for Q in (1, 2, 8):
            for J_fr in (1, 2, 3, 5):
                if Q < 8 or J < 8 or not q:
                    out.append(job('checks.c01', 'jtfs', 3, J=J, Q=Q, J_fr=J_fr))
    return out
