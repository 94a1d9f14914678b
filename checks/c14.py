from .common import *
from .casc import *
from .prims import tpost
ASSUMPTIONS = ASSUME


def mir(x, M, N, p):
    x = x[..., mirror_idx(M, p[0], p[1]), :]
    return x[..., mirror_idx(N, p[2], p[3])]


def pad2d(r, backend, M, N, lead=(2,)):
    B = backend_class('2d', backend)
    post = tpost if backend == 'torch' else None
    r.bound('mirror extension of %dx%d images by 0..size-1 on each side and by the size on both sides' % (M, N))
    rows = [(a, b) for a in range(M) for b in range(M)] + [(M, M)]
    cols = [(a, b) for a in range(N) for b in range(N)] + [(N, N)]
    todo = {(a, cols[len(cols) // 2]) for a in rows} | {(rows[len(rows) // 2], b) for b in cols}
    todo |= {(rows[i % len(rows)], cols[(i * 7 + 3) % len(cols)]) for i in range(max(len(rows), len(cols)))}
    todo |= {(rows[-1], cols[-1]), (rows[-1], cols[0]), (rows[0], cols[-1])}
    for a, b in sorted(todo):
        p = list(a + b)
        check_equal(r, 'Pad %s %dx%d %s' % (backend, M, N, p), lambda x: B.Pad(list(p), [M, N])(x),
                    lambda x: mir(x, M, N, p), [In('x', tuple(lead) + (M, N))], backend, kym=False, post=post)


def crop(r, backend, M, N):
    B = backend_class('2d', backend)
    r.bound('crop of one sample per side, %dx%d' % (M, N))
    tk = backend == 'torch'
    for lead in ((2,), (1, 2)):
        check_equal(r, 'unpad %s %dx%d %s' % (backend, M, N, lead), lambda x: B.unpad(x),
                    lambda x: (x[..., 0] if tk else x)[..., 1:M - 1, 1:N - 1],
                    [In('x', tuple(lead) + ((M, N, 1) if tk else (M, N)))], backend, kym=False)


def frontend(r, backend, J, shape):
    """the extension the transform really applies"""
    S = make2d(backend, J=J, shape=shape, L=1)
    key = '2D %s J=%d shape=%s' % (backend, J, shape)
    post = tpost if backend == 'torch' else None
    r.bound('extension applied by the transform, J=%d, %s' % (J, shape))
    check_equal(r, key + ' extends by mirror reflection', lambda x: S.pad(x), lambda x: mirror2d(x, shape, J),
                [In('x', (2,) + tuple(shape))], backend, kym=False, post=post)


def prepad(r, backend, cfg):
    """a pre-padded input is used as it is and gives the result of the ordinary transform"""
    nm = ' '.join('%s=%s' % kv for kv in sorted(cfg.items()))
    ot = cfg.get('out_type', 'array')
    S = make2d(backend, pre_pad=True, **cfg)
    O = make2d(backend, **cfg)
    F, G = Filters(S, backend, banks2d(S)), Filters(O, backend, banks2d(O))
    c = Cfg2D(S, dict(cfg, pre_pad=True))
    vals = F.randomise(7)
    G.put(vals)
    P = tuple(padded2d(m, cfg['J']) for m in cfg['shape'])
    r.bound('pre-padded input: %s' % nm)
    check_equal(r, '2D %s pre_pad uses its input unchanged %s' % (backend, nm), lambda x: norm2d(S(x), ot),
                lambda x: out2d(scat2d(x, c, vals), ot), [In('x', (1,) + P)], backend, kym=False)
    c0 = Cfg2D(O, cfg)
    check_equal(r, '2D %s without pre_pad %s' % (backend, nm), lambda x: norm2d(O(x), ot),
                lambda x: out2d(scat2d(mirror2d(x, cfg['shape'], cfg['J']), c, vals), ot), [In('x', (1,) + tuple(cfg['shape']))],
                backend, kym=False)


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = []
    for b in BACKENDS:
        for M, N in ((2, 2), (2, 3), (3, 4), (4, 2)) +  (() if q else ((5, 5), (6, 3), (4, 8), (7, 4)) + (((8, 9), (10, 3), (12, 12)) if deep else ())):
            out.append(job('checks.c14', 'pad2d', M * N, b, backend=b, M=M, N=N, limit=900))
        out.append(job('checks.c14', 'pad2d', 4, b, backend=b, M=2, N=2, lead=(1,), limit=900))
        for M, N in ((3, 3), (4, 6), (12, 3)):
            out.append(job('checks.c14', 'crop', 1, b, backend=b, M=M, N=N))
        for J, shape in ((1, (2, 2)), (1, (2, 3)), (1, (3, 5)), (2, (4, 4)), (2, (4, 7)), (2, (9, 6)), (3, (8, 8)), (3, (8, 13)), (4, (20, 33)), (2, (30, 4))) + (
                () if q else ((3, (15, 9)), (1, (9, 2)), (2, (5, 4)), (4, (16, 16)), (4, (16, 17)))):
            out.append(job('checks.c14', 'frontend', 3 + J, b, backend=b, J=J, shape=shape, limit=900))
        for cfg in (dict(J=1, shape=(3, 2), L=1, out_type='list'), dict(J=2, shape=(4, 5), L=1, out_type='array')) + (
                () if q else (dict(J=2, shape=(6, 4), L=2, out_type='list'), dict(J=3, shape=(8, 9), L=1, out_type='array'))):
            out.append(job('checks.c14', 'prepad', 12, b, backend=b, cfg=cfg, limit=900))
    return out
