from .common import *
from .casc import *
from . import jcore
ASSUMPTIONS = ASSUME + ['filter values: free symbolic variables (NumPy) or independent generic dyadic values per filter '
                        'and resolution',
                        'bookkeeping: filter scales are arbitrary non-decreasing integers up to J and J_fr, the largest second-order scale at most the '
                        'largest first-order one; filters are provided at the resolutions C10 establishes; array contents are abstracted to resolution, '
                        'permitted subsampling and history']


def nm(cfg):
    return ' '.join('%s=%s' % (k, v) for k, v in sorted(cfg.items()))


def cascade(r, backend, cfg, batch=(1,), symf=False):
    S = makej(backend, **cfg)
    F = Filters(S, backend, banks1d(S))
    c = CfgJ(S, cfg)
    vals = F.randomise(5)
    key = 'JTFS %s %s batch %s' % (backend, nm(cfg), tuple(batch))
    r.bound('JTFS %s batch %s%s' % (nm(cfg), tuple(batch), ', symbolic filters' if symf else ''))
    ins = [In('x', tuple(batch) + (c.N,))]
    if symf:
        ins += [In('f%d' % i, F.shape(i)) for i in range(len(F.slots))]

        def impl(x, *f):
            F.put_symbolic(f)
            return normj(S(x), c)
        check_equal(r, key + ' symbolic filters', impl, lambda x, *f: outj(jtfs(x, c, f), c), ins, backend, kym=False)
    else:
        check_equal(r, key, lambda x: normj(S(x), c), lambda x: outj(jtfs(x, c, vals), c), ins, backend, kym=False)


def group(r, backend, cfgs):
    for c in cfgs:
        cascade(r, backend, c)


B_ = dict(J=2, shape=8, Q=1, J_fr=1)
QUICK = [dict(B_, format='joint', out_type='list'), dict(B_, format='time', out_type='array'),
         dict(B_, T=0, F=0, format='time', out_type='list'), dict(B_, T='global', F='global', format='joint', out_type='array'),
         dict(B_, stride=1, stride_fr=1, format='time', out_type='list'),
         dict(J=3, shape=11, Q=1, J_fr=2, stride=2, F=2, format='joint', out_type='array'),
         dict(J=2, shape=9, Q=2, J_fr=2, T=3, F=1, format='joint', out_type='dict'),
         dict(J=3, shape=8, Q=1, J_fr=1, T=0, format='joint', out_type='list'),
         dict(J=2, shape=8, Q=2, J_fr=2, F=0, format='time', out_type='dict'),
         dict(J=2, shape=7, Q=1, J_fr=1, F='global', T=0, format='time', out_type='list'),
         dict(J=4, shape=16, Q=1, J_fr=1, F=4, format='joint', out_type='array'),
         dict(J=3, shape=9, Q=2, J_fr=1, F=5, format='time', out_type='list'),
         dict(J=2, shape=8, Q=1, J_fr=4, F=1, format='time', out_type='list')]


def grid(tier):
    out = []
    q = tier == 'quick'
    i = 0
    for J, N, Q in ((2, 8, 1), (3, 9, 1), (2, 13, 2)) if q else ((2, 8, 1), (3, 9, 1), (2, 13, 2), (3, 16, (2, 2)), (4, 17, 1)):
        for J_fr in (1, 2):
            for T, st in ((None, None), (0, None), ('global', None), (None, 1), (None, 2), (1, None), (3, None), (6, 2), (8, 4)):
                if isinstance(T, int) and T > N:
                    continue
                for F, sf in ((None, None), (0, None), ('global', None), (None, 1), (1, None), (2, None), (3, 1), (3, None),
                              (4, 2), (2, 1), (4, None), (6, None), (5, 2)):
                    if isinstance(F, int) and F > (J + 1) * (Q if isinstance(Q, int) else Q[0]):
                        continue
                    for fm in ('time', 'joint'):
                        for ot in ('list', 'array', 'dict'):
                            if T == 0 and ot == 'array' or F == 0 and ot == 'array' and fm == 'joint':
                                continue
                            i += 1
                            if i % (17 if q else 3):
                                continue
                            out.append(dict(J=J, shape=N, Q=Q, J_fr=J_fr, T=T, stride=st, F=F, stride_fr=sf, format=fm,
                                            out_type=ot))
    return out


def jobs(tier):
    out = jcore.jobs(tier)
    for b in BACKENDS:
        for i, cfg in enumerate(QUICK):
            out.append(job('checks.c21', 'cascade', 10, b, backend=b, cfg=cfg, limit=1200, batch=(2,) if i == 1 else (1,)))
    for cfg in QUICK[:6] if tier == 'quick' else QUICK:
        out.append(job('checks.c21', 'cascade', 12, 'numpy', backend='numpy', cfg=cfg, batch=(), symf=True, limit=1200))
    g = grid(tier)
    for i in range(0, len(g), 5):
        out.append(job('checks.c21', 'group', 15, 'numpy', backend='numpy', cfgs=g[i:i + 5], limit=1200))
    if tier != 'quick':
        for b in BACKENDS[1:]:
            for i in range(0, len(g), 40):
                out.append(job('checks.c21', 'group', 30, b, cfgs=g[i:i + 40:9], backend=b, limit=2400))
    return out
