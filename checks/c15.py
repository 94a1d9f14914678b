from .common import *
from .casc import *
from . import c16
ASSUMPTIONS = ASSUME + ['filter values are free symbolic variables for the NumPy frontend and independent generic '
                        'dyadic values per filter and resolution for the other frontends']


def cascade(r, backend, cfg, batch=(1,), symf=False):
    S = make2d(backend, **cfg)
    F = Filters(S, backend, banks2d(S))
    c = Cfg2D(S, cfg)
    ot = cfg.get('out_type', 'array')
    vals = F.randomise(5)
    nm = ' '.join('%s=%s' % (k, v) for k, v in sorted(cfg.items()))
    key = '2D %s %s batch %s' % (backend, nm, tuple(batch))
    r.bound('2D cascade %s batch %s%s' % (nm, tuple(batch), ', symbolic filters' if symf else ''))
    ins = [In('x', tuple(batch) + c.shape)]
    if symf:
        ins += [In('f%d' % i, F.shape(i)) for i in range(len(F.slots))]

        def impl(x, *f):
            F.put_symbolic(f)
            return norm2d(S(x), ot)
        check_equal(r, key + ' symbolic filters', impl, lambda x, *f: out2d(scat2d(x, c, f), ot), ins, backend, kym=False)
    else:
        check_equal(r, key, lambda x: norm2d(S(x), ot), lambda x: out2d(scat2d(x, c, vals), ot), ins, backend, kym=False)


QUICK = [dict(J=1, shape=(3, 4), L=2, out_type='list'), dict(J=1, shape=(2, 2), L=1, out_type='array'),
         dict(J=2, shape=(4, 5), L=1, out_type='list'), dict(J=2, shape=(5, 4), L=2, max_order=1, out_type='array'),
         dict(J=2, shape=(7, 4), L=2, out_type='list')]
MORE = [dict(J=2, shape=(8, 6), L=3, out_type='list'), dict(J=3, shape=(8, 8), L=1, out_type='list'),
        dict(J=3, shape=(9, 11), L=1, out_type='list'), dict(J=2, shape=(4, 4), L=4, out_type='list'),
        dict(J=1, shape=(5, 8), L=8, out_type='array'), dict(J=3, shape=(8, 9), L=2, max_order=1, out_type='list')]


def jobs(tier):
    out = c16.counts(tier)
    for b in BACKENDS:
        for i, cfg in enumerate(QUICK + (MORE if tier != 'quick' else MORE[:3] if b == 'numpy' else [])):
            out.append(job('checks.c15', 'cascade', 10 + 20 * (cfg['J'] > 2), b, backend=b, cfg=cfg, limit=1200,
                           batch=(2,) if i == 0 else (1,)))
    for cfg in QUICK if tier == 'quick' else QUICK + MORE[:4]:
        out.append(job('checks.c15', 'cascade', 12, 'numpy', backend='numpy', cfg=cfg, batch=(), symf=True, limit=1200))
    return out
