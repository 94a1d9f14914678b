"""2D filters: periodisation, zero mean, order and angles; real filter_bank, periodize_filter_fft, morlet_2d and gabor_2d."""
from .free import *
from vk.poly import Z
from vk.prove import prove_equal
ASSUMPTIONS = ASSUME + [
    'cosine, sine and exponential are uninterpreted real functions (sine and cosine of one angle on the unit circle, exponential positive)',
    'wavelet envelopes do not sum to zero (they are positive)',
    'single precision of the stored filters is outside the encoding',
]


def fb():
    return shim.load('kymatio.scattering2d.filter_bank')


def verdict(r, key, cs, A=(), B=(), what='values', conf=None, assumptions=()):
    """plain conditions and one array equality decided by z3; a difference is confirmed by `conf`"""
    bad = [l for l, c in cs if not bool(c)]
    if bad:
        r.violation('%s: %s' % (key, bad[0]), 'the real code gives: %s' % '; '.join(bad)[:400], dict(failing=bad[:20]))
        return
    st, info = prove_equal(list(A), list(B), assumptions=assumptions)
    if st == 'proved':
        r.ok(key, len(cs) + len(A))
        return
    w = conf() if conf else None
    if w:
        r.violation('%s: %s' % (key, what), w, dict(key=key, what=w))
    else:
        r.inconclusive(key, 'difference %s does not reproduce' % str(info)[:200] if st == 'refuted' else 'solver gave no answer')


def crop(x, res):
    """the retained square of the spectrum: nonnegative frequencies below and negative frequencies from half of the coarse band"""
    M, N = x.shape
    m, n = M >> res, N >> res
    ri = [k if k < m // 2 else k + M - m for k in range(m)] if res else list(range(m))
    ci = [k if k < n // 2 else k + N - n for k in range(n)] if res else list(range(n))
    return x[np.ix_(ri, ci)]


def periodize(r, M, N, res, cplx=False):
    key = 'periodisation of a %dx%d %s spectrum, resolution %d' % (M, N, 'complex' if cplx else 'real', res)
    r.bound(key + ': every value')

    def run(x):
        return fb().periodize_filter_fft(x, res)
    with r.encoding(), shim.symbolic():
        poly.reset(4, 'opaque')
        x = symarr.symvar('x', (M, N), np.dtype('complex64' if cplx else 'float32'), cplx)
        keep = obj(x).copy()
        y = run(x)
        cs = [('shape', tuple(y.shape) == (M >> res, N >> res)), ('dtype kept', y.dtype.kind == ('c' if cplx else 'f'))]
        if not cs[0][1]:
            return verdict(r, key, cs)
        w = crop(keep, res)

    def conf():
        with shim.concrete():
            v = generic((M, N), 3, cplx).astype('complex128' if cplx else 'float64')
            g, e = np.asarray(run(v.copy())), crop(v, res)
            if g.shape != e.shape or np.abs(g - e).max() > 1e-6:
                return 'the coarse filter differs from the alias-free crop by %.3g' % (np.abs(g - e).max() if g.shape == e.shape else np.inf)
    verdict(r, key, cs, obj(y).ravel(), w.ravel(), 'coarse filter', conf)
    if conf() is None:
        r.validated += 1


def morlet(r, M, N):
    """zero mean for every envelope and carrier"""
    key = 'zero mean of morlet_2d %dx%d' % (M, N)
    r.bound(key + ': every envelope and carrier value')
    F = fb()
    calls = []
    arr = {}

    def gab(M_, N_, sigma, theta, xi, slant=1.0, offset=0):
        calls.append((M_, N_, sigma, theta, xi, slant, offset))
        z = not isinstance(xi, Z) and xi == 0
        return SymArray(obj(arr[bool(z)]).copy(), np.dtype('complex64'))
    with r.encoding(), shim.symbolic():
        poly.reset(4, 'opaque')
        poly.C.expand = True
        arr[False] = symarr.symvar('w', (M, N), np.dtype('complex64'), True)
        arr[True] = symarr.symvar('e', (M, N), np.dtype('complex64'))
        with Swap((F.gabor_2d, gab)):
            m = F.morlet_2d(M, N, 1.5, .7, .9, .4)
        tot = sum(obj(m).ravel(), lift(0))
        env = sum(obj(arr[True]).ravel(), lift(0))
        zx = engine_zx()
        nz = zx.real(env) != 0
        cs = [('shape', tuple(m.shape) == (M, N)),
              ('carrier and envelope share size, bandwidth, angle, slant and offset', len({c[:4] + c[5:] for c in calls}) == 1 and calls[0][:4] + calls[0][5:] == (M, N, 1.5, .7, .4, 0))]

    def conf():
        with shim.concrete():
            for a in ((1.5, .7, .9, .4), (.8, 2.1, 2.3, .5), (3., 0., .3, 1.)):
                v = np.asarray(fb().morlet_2d(M, N, *a))
                if abs(v.sum()) > 1e-4 * np.abs(v).sum():
                    return 'morlet_2d(%d, %d, %s) has mean %.3g relative to its l1 norm' % (M, N, a, abs(v.sum()) / np.abs(v).sum())
    st = prove_zero(tot, env)
    if not all(c for _, c in cs):
        verdict(r, key, cs)
    elif st == 'proved':
        r.ok(key, len(cs) + 1)
    else:
        w = conf()
        if w:
            r.violation(key, w, dict(key=key))
        else:
            r.inconclusive(key, 'not proved (%s)' % st)
    if conf() is None:
        r.validated += 1


def engine_zx():
    from vk.engine import Zx
    return Zx()


def prove_zero(tot, env):
    """tot == 0 whenever env != 0; tot is split by the carrier values it is linear in (each coefficient must vanish)"""
    from vk.engine import Zx, check
    ev = {i for m, e in env.t for i in m}
    parts = {}
    for (m, e), v in tot.norm().t.items():
        own = tuple(i for i in m if C.atoms[i].kind == 'var' and i not in ev)
        rest = list(m)
        for i in own:
            rest.remove(i)
        parts.setdefault((own, e), {})[(tuple(rest), 0)] = v
    seen = {}
    for k, t in parts.items():
        z = Z(t, 1)
        c = z.norm() if not z.t else poly.primitive(z)[2]
        seen[c.key()] = c
    for c in seen.values():
        sv = z3.Solver()
        sv.set('timeout', 20000)
        zx = Zx()
        p = list(zx.parts(c).values())
        sv.add(zx.real(env) != 0)
        sv.add(z3.Or(*[v != 0 for v in p]) if p else z3.BoolVal(False))
        sv.add(*zx.flush())
        st = check(sv)
        if st != z3.unsat:
            return 'refuted' if st == z3.sat else 'unknown'
    return 'proved'


def gabor(r, M, N, offset=0):
    """an oriented Gaussian envelope with a plane wave along its short axis, periodised over five periods"""
    key = 'gabor_2d %dx%d offset %d' % (M, N, offset)
    r.bound(key + ': every bandwidth, angle, frequency and slant')

    def spec(sg, th, xi, sl, sym):
        cos, sin, exp = (lambda z: z.cos(), lambda z: z.sin(), lambda z: z.exp()) if sym else (np.cos, np.sin, np.exp)
        c, s = cos(th), sin(th)
        out = np.empty((M, N), dtype=object)
        for a in range(M):
            for b in range(N):
                t = lift(0) if sym else 0
                for ex in range(-2, 3):
                    for ey in range(-2, 3):
                        x, y = offset + a + ex * M, offset + b + ey * N
                        u, v = c * x + s * y, s * -x + c * y
                        g = -(u * u + sl * sl * v * v) / (2 * sg * sg)
                        ph = xi * u
                        t = t + (exp(g) * (cos(ph) + sin(ph).times_i()) if sym else exp(g + 1j * ph))
                out[a, b] = t
        return out
    with r.encoding(), shim.symbolic():
        poly.reset(4, 'opaque')
        poly.C.expand = True
        sg, th, xi, sl = [poly.var(n, nonneg=n in ('sigma', 'slant')) for n in ('sigma', 'theta', 'xi', 'slant')]
        g = fb().gabor_2d(M, N, sg, th, xi, sl, offset)
        w = spec(sg, th, xi, sl, True)
        cs = [('shape', tuple(g.shape) == (M, N))]
        G = obj(g)
        # the normalisation is a positive constant times slant / sigma^2
        from vk.poly import inv
        f = sl * inv(sg) * inv(sg)
        lam = None
        A, B = [], []
        if cs[0][1]:
            for i in np.ndindex(M, N):
                A.append(G[i])
                B.append(w[i] * f)
            lam = ratio(A, B)
            cs.append(('positive normalisation near 1/(2 pi)', lam is not None and abs(lam * 2 * np.pi - 1) < 1e-3))
            B = [b.scale(lam) for b in B] if lam else B

    def conf():
        with shim.concrete():
            for a in ((1.5, .7, .9, .4), (.8, 2.1, 2.3, .5), (1., 0., .3, 1.)):
                v = np.asarray(fb().gabor_2d(M, N, *a[:3], a[3], offset)).astype(complex)
                e = spec(*a, False).astype(complex) * a[3] / a[0] ** 2 / (2 * np.pi)
                if v.shape != e.shape or np.abs(v - e).max() > 1e-3 * np.abs(e).max():
                    return 'gabor_2d(%d, %d, %s) differs from its definition by %.3g' % (M, N, a, np.abs(v - e).max() if v.shape == e.shape else np.inf)
    bad = [c for c in cs if not c[1]]
    if bad and bad[0][0].startswith('positive'):
        w_ = conf()
        if w_:
            r.violation(key, w_, dict(key=key))
        else:
            r.inconclusive(key, bad[0][0])
        return
    verdict(r, key, cs, A, B, 'values', conf)
    if conf() is None:
        r.validated += 1


def ratio(A, B):
    """the constant A/B of the leading terms, None if there is none"""
    for a, b in zip(A, B):
        if b.t:
            k = min(b.t)
            if k not in a.t:
                return None
            return Fraction(a.t[k], a.d) / Fraction(b.t[k], b.d)


def bank(r, M, N, J, L):
    """whole filterbank with arbitrary wavelet values: order, scales, angles, resolutions, periodisation"""
    key = 'filter bank %dx%d J=%d L=%d' % (M, N, J, L)
    r.bound(key + ': every wavelet and low-pass value')
    F = fb()
    calls, arrs = [], []

    def mk(kind):
        def f(M_, N_, sigma, theta, xi, slant=(.5 if kind == 'm' else 1.), offset=0):
            a = symarr.symvar('g%d' % len(arrs), (M_, N_), np.dtype('complex64'), True)
            arrs.append(obj(a).copy())
            calls.append((kind, M_, N_, sigma, theta, xi, slant, offset))
            return a
        return f
    with r.encoding(), shim.symbolic():
        poly.reset(4, 'opaque')
        with Swap((F.morlet_2d, mk('m')), (F.gabor_2d, mk('g'))):
            out = F.filter_bank(M, N, J, L)
        psi, phi = out['psi'], out['phi']
        cs = [('JL wavelets', len(psi) == J * L), ('one low-pass at scale J', phi['j'] == J),
              ('low-pass available at every resolution', len(phi['levels']) >= J)]
        A, B = [], []
        ms = [(c, a) for c, a in zip(calls, arrs) if c[0] == 'm']
        gs = [(c, a) for c, a in zip(calls, arrs) if c[0] == 'g']
        cs.append(('every wavelet is built once', len(ms) == J * L and len(gs) == 1))
        used = set()

        def levels(name, lv):
            full = obj(lv[0])
            cs.append((name + ': full resolution first', tuple(lv[0].shape) == (M, N)))
            for q, a in enumerate(lv):
                ok = tuple(a.shape) == (M >> q, N >> q) and a.dtype.kind == 'f'
                cs.append(('%s: real and of the right size at resolution %d' % (name, q), ok))
                if ok and full.shape == (M, N):
                    A.extend(obj(a).ravel())
                    B.extend(crop(full, q).ravel())
        if all(c for _, c in cs):
            spectra = {}
            for i, (c, a) in enumerate(ms):
                s = poly.fft_axes(a, (0, 1), False)
                spectra[i] = np.array([[z.real for z in row] for row in s], dtype=object)
            for n, p in enumerate(psi):
                j, t = n // L, n % L
                nm = 'wavelet %d' % n
                cs += [(nm + ': scale, then angle', p['j'] == j and p['theta'] == t), (nm + ': every resolution a path can request', len(p['levels']) >= max(1, j))]
                src = [i for i in spectra if all(x.same(y) for x, y in zip(spectra[i].ravel(), obj(p['levels'][0]).ravel()))] if len(p['levels']) else []
                cs.append((nm + ': is the spectrum of one wavelet', len(src) == 1 and src[0] not in used))
                if len(src) == 1:
                    used.add(src[0])
                    _, m_, n_, sg, th, xi, sl, off = ms[src[0]][0]
                    # angles are measured modulo pi and decrease by pi/L
                    d = (th - (L / 2 - 1 - t) * np.pi / L if L % 2 == 0 else th - (int(L - L / 2 - 1) - t) * np.pi / L) / np.pi
                    cs += [(nm + ': size', (m_, n_, off) == (M, N, 0)), (nm + ': angle', abs(d - round(d)) < 1e-9),
                           (nm + ': bandwidth doubles with the scale', abs(sg / (.8 * 2 ** j) - 1) < 1e-9), (nm + ': frequency halves with the scale', abs(xi * 2 ** j / (.75 * np.pi) - 1) < 1e-9),
                           (nm + ': slant follows the number of angles', abs(sl - 4. / L) < 1e-9)]
                if len(p['levels']):
                    levels(nm, p['levels'])
            _, m_, n_, sg, th, xi, sl, off = gs[0][0]
            cs += [('low-pass: size', (m_, n_, off) == (M, N, 0)), ('low-pass: no carrier', xi == 0), ('low-pass: round', sl == 1), ('low-pass: bandwidth', abs(sg / (.8 * 2 ** (J - 1)) - 1) < 1e-9)]
            s = poly.fft_axes(gs[0][1], (0, 1), False)
            cs.append(('low-pass: is the spectrum of the Gaussian', all(x.real.same(y) for x, y in zip(s.ravel(), obj(phi['levels'][0]).ravel()))))
            levels('low-pass', phi['levels'])

    def conf():
        with shim.concrete():
            o = F.filter_bank(M, N, J, L)
            for nm, p in [('psi %d' % i, p) for i, p in enumerate(o['psi'])] + [('phi', o['phi'])]:
                for q, a in enumerate(p['levels']):
                    e = crop(np.asarray(p['levels'][0]), q)
                    if a.shape != e.shape or np.abs(a - e).max() > 1e-5 * np.abs(e).max():
                        return '%s at resolution %d is not the alias-free crop of its finest version' % (nm, q)
    verdict(r, key, cs, A, B, 'a resolution differs from the periodisation', conf)
    if conf() is None:
        r.validated += 1


def zeromean(r, M, N, J, L):
    """spectra of the whole bank vanish at zero frequency (exact transforms, arbitrary Gabor values)"""
    key = 'wavelets of the bank %dx%d J=%d L=%d have zero mean' % (M, N, J, L)
    r.bound(key + ': every Gabor value')
    F = fb()
    envs = []

    def gab(M_, N_, sigma, theta, xi, slant=1.0, offset=0):
        z = xi == 0
        a = symarr.symvar('v%d' % gab.n, (M_, N_), np.dtype('complex64'), not z)
        gab.n += 1
        if z:
            envs.append(sum(obj(a).ravel(), lift(0)))
        return a
    gab.n = 0
    bad, unk = [], []
    n = 0
    with r.encoding(), shim.symbolic():
        poly.reset(unity(M, N), 'exact')
        with Swap((F.gabor_2d, gab)):
            out = F.filter_bank(M, N, J, L)
        for i, p in enumerate(out['psi']):
            for q, a in enumerate(p['levels']):
                ok = False
                for e in envs[i:] + envs[:i]:
                    st = prove_zero(lift(obj(a)[0, 0]), e)
                    if st == 'proved':
                        ok = True
                        break
                n += 1
                if not ok:
                    bad.append((i, q))
    with shim.concrete():
        o = F.filter_bank(M, N, J, L)
        w = ['wavelet %d at resolution %d has mean %.3g' % (i, q, a[0, 0]) for i, p in enumerate(o['psi']) for q, a in enumerate(p['levels'])
             if abs(a[0, 0]) > 1e-4 * np.abs(a).max()]
    if bad and w:
        r.violation(key, '; '.join(w)[:400], dict(failing=w[:10]))
    elif bad:
        r.inconclusive(key, 'not proved for %s' % bad[:5])
    else:
        r.ok(key, n)
        if not w:
            r.validated += 1


def frontend(r, cfg):
    """the bank of the transform objects: padded size, constants"""
    from .casc import padded2d
    nm = ' '.join('%s=%s' % kv for kv in sorted(cfg.items()))
    key = '2D transform uses the filter bank of its padded size: %s' % nm
    F = fb()
    calls = []

    def stub(M, N, J, L=8):
        calls.append((M, N, J, L))
        return real(M, N, J, L)
    real = F.filter_bank
    from kymatio.scattering2d.frontend.numpy_frontend import ScatteringNumPy2D as K
    with r.encoding():
        with Swap((F.filter_bank, stub)):
            S = K(**cfg)
    pre = cfg.get('pre_pad', False)
    want = tuple(padded2d(m, cfg['J']) for m in cfg['shape'])
    L = cfg.get('L', 8)
    psi, phi = S.psi, S.phi
    cs = [('number of wavelets', len(psi) == cfg['J'] * L), ('size', tuple(phi['levels'][0].shape) == want and all(tuple(p['levels'][0].shape) == want for p in psi)),
          ('order', [(p['j'], p['theta']) for p in psi] == [(j, t) for j in range(cfg['J']) for t in range(L)])]
    # the stored filters are those of the bank, compared as constants
    o = real(*want, cfg['J'], L)
    A = [x for p in list(psi) + [phi] for a in p['levels'] for x in np.asarray(a).ravel()[:64]]
    B = [x for p in list(o['psi']) + [o['phi']] for a in p['levels'] for x in np.asarray(a).ravel()[:64]]
    cs.append(('same number of stored values', len(A) == len(B)))
    if len(A) == len(B):
        cs.append(('stored filters are the filters of the bank', np.allclose(np.array(A, float), np.array(B, float))))
    bad = [l for l, c in cs if not c]
    if bad:
        r.violation('%s: %s' % (key, bad[0]), 'config %s: %s' % (cfg, '; '.join(bad)), dict(config=cfg, failing=bad))
    else:
        r.ok(key, len(cs))


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = []
    for M, N, res in ((2, 2, 0), (2, 2, 1), (4, 4, 1), (4, 8, 1), (8, 8, 2), (8, 12, 2), (6, 4, 1), (12, 8, 1), (8, 16, 3), (4, 4, 2), (12, 20, 2), (16, 16, 2)) + (
            () if q else ((16, 24, 3), (32, 32, 1), (32, 16, 4), (24, 40, 3), (32, 32, 5)) + (((48, 32, 4), (64, 64, 2), (64, 64, 6), (64, 48, 3)) if deep else ())):
        out.append(job('checks.c17', 'periodize', M * N / 20, M=M, N=N, res=res))
        if M * N <= 64:
            out.append(job('checks.c17', 'periodize', M * N / 20, M=M, N=N, res=res, cplx=True))
    for M, N in ((2, 2), (4, 4), (3, 5), (8, 8)) + (() if q else ((12, 8), (16, 16))):
        out.append(job('checks.c17', 'morlet', M * N / 10, M=M, N=N))
    for M, N, o in ((2, 2, 0), (3, 2, 0), (4, 4, 0), (2, 3, 1)) + (() if q else ((8, 8, 0), (6, 10, 0), (4, 4, -2))):
        out.append(job('checks.c17', 'gabor', M * N, M=M, N=N, offset=o))
    for M, N, J, L in ((4, 4, 1, 1), (4, 8, 2, 2), (8, 8, 3, 4), (8, 16, 3, 3), (8, 8, 2, 8), (16, 16, 4, 2), (16, 16, 5, 1), (32, 32, 6, 1), (64, 64, 7, 1), (4, 4, 1, 16), (4, 4, 2, 11)) + (
            () if q else ((16, 16, 4, 6), (32, 16, 4, 8), (16, 24, 3, 12), (24, 24, 3, 5)) + (((32, 32, 5, 4), (64, 64, 6, 8), (128, 128, 8, 1)) if deep else ())):
        out.append(job('checks.c17', 'bank', J * L * M * N / 50, M=M, N=N, J=J, L=L, limit=600))
    for M, N, J, L in ((4, 4, 1, 2), (4, 4, 2, 2), (8, 8, 2, 2), (8, 4, 2, 3), (8, 8, 3, 2)) + (() if q else ((4, 4, 2, 8), (8, 8, 3, 4), (8, 16, 3, 2))):
        out.append(job('checks.c17', 'zeromean', 30, M=M, N=N, J=J, L=L, limit=600))
    for cfg in (dict(J=2, shape=(8, 10), L=2), dict(J=3, shape=(16, 24), L=4), dict(J=1, shape=(4, 5), L=3), dict(J=2, shape=(8, 8), L=8, pre_pad=True)) + (
            () if q else (dict(J=4, shape=(32, 33)), dict(J=3, shape=(17, 30), L=6))):
        out.append(job('checks.c17', 'frontend', 3, cfg=cfg))
    return out
