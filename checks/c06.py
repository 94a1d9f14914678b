from .common import *
from .casc import *
ASSUMPTIONS = ASSUME + ['filter values are free symbolic variables for the NumPy frontend and independent generic '
                        'dyadic values per filter and resolution for the other frontends']


def cascade(r, backend, cfg, batch=(2,), symf=False):
    S = make1d(backend, **cfg)
    F = Filters(S, backend, banks1d(S))
    c = Cfg1D(S, cfg)
    ot = cfg.get('out_type', 'array')
    vals = F.randomise(5)
    key = '1D %s %s' % (backend, ' '.join('%s=%s' % (k, v) for k, v in sorted(cfg.items())))
    r.bound('1D cascade %s batch %s%s' % (' '.join('%s=%s' % (k, v) for k, v in sorted(cfg.items())), tuple(batch),
                                          ', symbolic filters' if symf else ''))
    ins = [In('x', tuple(batch) + (c.N,))]
    if symf:
        ins += [In('f%d' % i, F.shape(i)) for i in range(len(F.slots))]

        def impl(x, *f):
            F.put_symbolic(f)
            return norm1d(S(x), ot)
        check_equal(r, key + ' symbolic filters', impl, lambda x, *f: out1d(scat1d(x, c, f), ot), ins, backend, kym=False)
    else:
        check_equal(r, key, lambda x: norm1d(S(x), ot), lambda x: out1d(scat1d(x, c, vals), ot), ins, backend, kym=False)


QUICK = [dict(J=2, shape=8, Q=1), dict(J=2, shape=9, Q=1, T=0), dict(J=2, shape=8, Q=1, T='global'),
         dict(J=3, shape=11, Q=1, stride=2), dict(J=2, shape=8, Q=1, stride=1), dict(J=2, shape=10, Q=1, T=7),
         dict(J=3, shape=12, Q=1, T=2), dict(J=3, shape=8, Q=1, oversampling=1), dict(J=2, shape=7, Q=2, max_order=1),
         dict(J=2, shape=5, Q=1, max_order=1, T=0), dict(J=2, shape=6, Q=1, max_order=1, T='global')]
MORE = [dict(J=3, shape=16, Q=2), dict(J=3, shape=17, Q=(2, 2)), dict(J=3, shape=16, Q=1, T=0),
        dict(J=3, shape=16, Q=1, T='global'), dict(J=4, shape=20, Q=1), dict(J=4, shape=20, Q=1, stride=2),
        dict(J=4, shape=24, Q=1, T=4, stride=2), dict(J=3, shape=13, Q=3, T=5), dict(J=1, shape=3, Q=1),
        dict(J=1, shape=4, Q=1, T=0), dict(J=2, shape=15, Q=1, T=15), dict(J=3, shape=14, Q=1, T=8, oversampling=2),
        dict(J=3, shape=15, Q=2, T=3, stride=1), dict(J=4, shape=16, Q=2, T=0), dict(J=2, shape=4, Q=1, stride=4)]




def grid(tier):
    """admissible configurations: scales, lengths, quality factors, averaging lengths and strides"""
    out = []
    q = tier == 'quick'
    for J in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for N in (2, 3, 5, 8, 13, 17) if q else (2, 3, 4, 5, 7, 8, 12, 13, 16, 17, 23):
            for Q in (1, (2, 2)) if q else (1, 2, (2, 2), (3, 1), 4):
                for T in (None, 0, 'global', 1, 2, 3, 5, 8, 13):
                    for st in (None, 1, 2, 4):
                        if T in (0, 'global') and st:
                            continue
                        if T not in (None, 'global') and T > N:
                            continue
                        l2t = J if T in (None, 0, 'global') else int(np.floor(np.log2(T)))
                        if st and st > 2 ** l2t:
                            continue
                        if int(np.floor(np.log2(3 * N - 2))) < J:
                            continue      # the padded signal would be shorter than 2**J
                        if q and (J * 7 + N * 3 + len(out)) % 3:
                            out.append(None)
                            continue
                        out.append(dict(J=J, shape=N, Q=Q, T=T, stride=st))
    return [c for c in out if c]


def group(r, cfgs, backend='numpy'):
    for c in cfgs:
        cascade(r, backend, dict(c, out_type='list'), batch=(1,))


def jobs(tier):
    out = []
    for b in BACKENDS:
        for cfg in QUICK + MORE:
            c = dict(cfg, out_type='list')
            out.append(job('checks.c06', 'cascade', 10, b, backend=b, cfg=c, limit=1200))
    for cfg in QUICK[:8] + ([] if tier == 'quick' else QUICK[8:] + MORE[:9]):
        out.append(job('checks.c06', 'cascade', 12, 'numpy', backend='numpy', cfg=dict(cfg, out_type='list'), batch=(),
                       symf=True, limit=1200))
    g = grid(tier)
    for i in range(0, len(g), 12):
        out.append(job('checks.c06', 'group', 15, 'numpy', cfgs=g[i:i + 12], limit=1200))
    if tier != 'quick':
        for b in BACKENDS[1:]:
            for i in range(0, len(g), 60):
                out.append(job('checks.c06', 'group', 30, b, cfgs=g[i:i + 60:7], backend=b, limit=2400))
    return out
