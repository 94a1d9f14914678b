"""3D helpers and filters over symbolic positions, weights and widths."""
import warnings
from .free import *
from vk.poly import Z, primitive
from vk.engine import Zx, check
from .c17 import verdict
ASSUMPTIONS = ASSUME + [
    'the exponential and the two-argument arctangent are uninterpreted functions (the exponential positive)',
    'grid coordinates, spherical harmonics and normalising constants are the floating-point constants the code computes; '
    'comparisons of coefficients allow a relative deviation of 1e-5 (single precision), 1e-9 for the helpers',
]


def snap(a, b, tol):
    """b with those coefficients replaced by a's that agree to a relative tolerance (constants are floating-point numbers)"""
    b = lift(b)
    a = lift(a)
    t = {}
    d = a.d * b.d
    for k, v in b.t.items():
        y = Fraction(v, b.d)
        if k in a.t:
            x = Fraction(a.t[k], a.d)
            if abs(x - y) <= Fraction(tol) * abs(y):
                y = x
        t[k] = y
    L = 1
    for y in t.values():
        L = int(np.lcm.reduce([1])) * L * y.denominator // np_gcd(L, y.denominator)
    return Z({k: int(y * L) for k, y in t.items() if y}, L)


def np_gcd(a, b):
    from math import gcd
    return gcd(a, b)


def leq(r, key, pairs, conf, extra=()):
    """|d| <= bound for every pair (d, bound): one solver query over all of them after removing common positive factors"""
    sv = z3.Solver()
    sv.set('timeout', 30000)
    zx = Zx()
    neg = []
    for d, b in pairs:
        for part in ([d] if lift(d).is_real() else [lift(d).real, lift(d).imag]):
            for sg in (1, -1):
                z = lift(b) - lift(part).scale(sg)
                if z.is_zero():
                    continue
                c, m, p = primitive(z)
                assert all(C.atoms[i].nonneg for i in m)
                neg.append(zx.real(p) < 0 if c > 0 else zx.real(p) > 0)
    sv.add(z3.Or(*neg) if neg else z3.BoolVal(False))
    sv.add(*zx.flush())
    st = check(sv)
    w = conf()
    if st == z3.unsat:
        r.ok(key, len(pairs))
        if not w:
            r.validated += 1
        return
    if w:
        r.violation(key, w, dict(key=key, what=w))
    else:
        r.inconclusive(key, 'not proved (%s)' % st)


def wsum(r, M, N, O, B, P):
    """a weighted sum of Gaussians is its definition, and stops at the first zero weight"""
    key = 'weighted sum of Gaussians on a %dx%dx%d grid, %d signals of %d points' % (M, N, O, B, P)
    r.bound(key + ': every grid coordinate, position, weight and width')

    def body(v):
        U = shim.load('kymatio.scattering3d.utils')
        sym = isinstance(v['s'], Z)
        grid = np.empty((3, M, N, O), dtype=object)
        for i in np.ndindex(3, M, N, O):
            grid[i] = v['g%d_%d_%d_%d' % i]
        pos = np.empty((B, P, 3), dtype=object)
        wts = np.empty((B, P), dtype=object)
        for i in np.ndindex(B, P):
            wts[i] = v['w%d_%d' % i]
            for k in range(3):
                pos[i + (k,)] = v['p%d_%d_%d' % (i + (k,))]
        s = v['s']
        if sym:
            G, Pp, W = (SymArray(x, np.dtype('float64')) for x in (grid, pos, wts))
            out = obj(U.generate_weighted_sum_of_gaussians(G, Pp, W, s))
        else:
            grid, pos, wts, s = grid.astype(float), pos.astype(float), wts.astype(float), float(s)
            out = U.generate_weighted_sum_of_gaussians(grid.copy(), pos.copy(), wts.copy(), s)
        cs = [('shape', tuple(out.shape) == (B, M, N, O))]
        if not cs[0][1]:
            return cs
        for b in range(B):
            live = []
            for k in range(P):
                if wts[b, k] == 0:
                    break
                live.append(k)
            for i in np.ndindex(M, N, O):
                e = lift(0) if sym else 0.
                for k in live:
                    d = sum(((grid[(a,) + i] - pos[b, k, a]) ** 2 for a in range(3)), lift(0) if sym else 0.)
                    q = -d / (2 * s * s)
                    e = e + wts[b, k] * (q.exp() if sym else np.exp(q))
                e = e / ((2 * np.pi) ** 1.5) / (s * s * s)
                if sym:
                    e = snap(out[(b,) + i], e, Fraction(1, 10 ** 9))
                    cs.append(('signal %d value %s' % (b, i), True if lift(out[(b,) + i]).same(e) else out[(b,) + i] == e))
                else:
                    cs.append(('signal %d value %s' % (b, i), abs(out[(b,) + i] - e) <= 1e-9 * (1e-6 + abs(e))))
        return cs
    vs = {'s': Real()}
    for i in np.ndindex(3, M, N, O):
        vs['g%d_%d_%d_%d' % i] = Real()
    for i in np.ndindex(B, P):
        vs['w%d_%d' % i] = Real()
        for k in range(3):
            vs['p%d_%d_%d' % (i + (k,))] = Real()
    smp = []
    for sd in range(3):
        rs = np.random.RandomState(sd)
        d = {n: float(rs.randint(-8, 9)) / 4 for n in vs}
        d['s'] = 1.5 + sd / 4
        smp.append(d)
    d = dict(d)
    d['w0_%d' % (P // 2)] = 0.
    smp.append(d)
    explore_free(r, key, body, vs, lambda v: [v['s'] > 0], samples=smp, seconds=60)


def dfact(r, top):
    r.bound('double factorial: every integer from -4 to %d' % top)

    def body(v):
        U = shim.load('kymatio.scattering3d.utils')
        i = v['i']
        x = U.double_factorial(i)
        k = int(i)
        w = 1
        while k > 0:
            w *= k
            k -= 2
        return [('product of every second integer', int(x) == w)]
    explore_free(r, 'double factorial', body, dict(i=Int()), lambda v: [v['i'] >= -4, v['i'] <= top], samples=[dict(i=0), dict(i=7), dict(i=8)], ints=True)


def angles(r, sh):
    key = 'spherical angles on a %s grid' % (sh,)
    r.bound(key + ': every coordinate')

    def body(v):
        U = shim.load('kymatio.scattering3d.utils')
        g = np.empty((3,) + sh, dtype=object)
        for i in np.ndindex(*g.shape):
            g[i] = v['g' + '_'.join(map(str, i))]
        sym = isinstance(g.ravel()[0], Z)
        if sym:
            p, a = U.get_3d_angles(SymArray(g.copy(), np.dtype('float64')))
            p, a = obj(p), obj(a)
        else:
            g = g.astype(float)
            p, a = U.get_3d_angles(g.copy())
        cs = [('shapes', tuple(p.shape) == sh and tuple(a.shape) == sh)]
        if not cs[0][1]:
            return cs
        for i in np.ndindex(*sh):
            z, y, x = g[(0,) + i], g[(1,) + i], g[(2,) + i]
            if sym:
                cs += [('azimuth at %s' % (i,), same(a[i], lift(y).arctan2(x))),
                       ('polar angle at %s' % (i,), same(p[i], lift(z).arctan2((x * x + y * y).sqrt()) + float(np.pi / 2)))]
            else:
                cs += [('azimuth at %s' % (i,), abs(a[i] - np.arctan2(y, x)) < 1e-9),
                       ('polar angle at %s' % (i,), abs(p[i] - (np.arctan2(z, np.hypot(x, y)) + np.pi / 2)) < 1e-9)]
        return cs

    def same(a, b):
        b = snap(a, b, Fraction(1, 10 ** 12))
        return True if lift(a).same(b) else a == b
    vs = {'g' + '_'.join(map(str, i)): Real() for i in np.ndindex(*((3,) + sh))}
    smp = [{n: float(x) for n, x in zip(vs, np.random.RandomState(3).randint(-9, 9, len(vs)) / 4.)}, {n: 0. for n in vs}]
    explore_free(r, key, body, vs, samples=smp)


def freq(n, fourier):
    """coordinates of the periodic grid in transform order"""
    k = np.array([i if i < (n + 1) // 2 else i - n for i in range(n)], dtype=float)
    return k * 2 * np.pi / n if fourier else k


def envelope(sh, sigma, fourier, l):
    """r^l exp(-r^2 s^2/2) s^l for a symbolic width s (its inverse in space)"""
    f = [freq(n, fourier) for n in sh]
    out, rr = np.empty(sh, dtype=object), np.empty(sh)
    for i in np.ndindex(*sh):
        r2 = sum(f[a][i[a]] ** 2 for a in range(3))
        rr[i] = r2
    return rr


def selfmirror(i, sh):
    return any(2 * a == n for a, n in zip(i, sh))


def mirror(i, sh):
    return tuple((-a) % n for a, n in zip(i, sh))


def expof(z):
    """the single exponential factor of a monomial value, or None"""
    ex = {j for (m, e) in z.t for j in m if C.atoms[j].kind == 'exp'}
    return ex


def gaussian(r, sh, fourier):
    key = 'Gaussian filter %s in %s' % (sh, 'frequency' if fourier else 'space')
    r.bound(key + ': every width')
    F = shim.load('kymatio.scattering3d.filter_bank')
    with r.encoding(), shim.symbolic():
        poly.reset(4, 'opaque')
        s = poly.var('sigma', nonneg=True)
        g = obj(F.gaussian_3d(*sh, s, fourier=fourier))
    rr = envelope(sh, s, fourier, 0)

    def conf():
        with shim.concrete():
            for sv in (.7, 1., 2.5):
                v = np.asarray(F.gaussian_3d(*sh, sv, fourier=fourier))
                e = np.exp(-.5 * rr * sv ** 2) if fourier else np.exp(-.5 * rr / sv ** 2) / (2 * np.pi) ** 1.5 / sv ** 3
                if v.shape != tuple(sh) or np.abs(v - e).max() > 1e-5 * e.max():
                    return 'gaussian_3d%s with width %s differs from its definition by %.3g' % (sh, sv, np.abs(v - e).max() if v.shape == tuple(sh) else np.inf)
    cs = [('shape', g.shape == tuple(sh))]
    if not cs[0][1]:
        return verdict(r, key, cs)
    scale = lift(1) if fourier else 1 / (s * s * s * lift(float((2 * np.pi) ** 1.5)))
    A, B = [], []
    for i in np.ndindex(*sh):
        a = lift(g[i])
        e = expo(a)
        want = -lift(float(rr[i])) * s * s / 2 if fourier else -lift(float(rr[i])) / (2 * s * s)
        A.append(a)
        B.append(snap(a, near_exp(a, want) * scale, Fraction(1, 10 ** 5)))
        A.append(a)
        B.append(g[mirror(i, sh)])
    verdict(r, key, cs, A, B, 'values', conf)
    if conf() is None:
        r.validated += 1


def expo(z):
    return [j for (m, e) in z.t for j in m if C.atoms[j].kind == 'exp']


def near_exp(a, want):
    """exp(want), reusing the exponential inside `a` when its exponent agrees up to single precision"""
    for j in expo(a):
        w = snap(C.atoms[j].args[0], want, Fraction(1, 10 ** 6))
        if w.same(C.atoms[j].args[0]):
            return Z({((j,), 0): 1})
    return want.exp()


def harmonic(r, sh, l, fourier=True):
    """solid harmonics: zero at the origin, parity, and a magnitude over azimuthal orders that depends on the distance only"""
    key = 'solid harmonics of order %d on %s in %s' % (l, sh, 'frequency' if fourier else 'space')
    r.bound(key + ': every width')
    F = shim.load('kymatio.scattering3d.filter_bank')
    rr = envelope(sh, None, fourier, l)

    def conf():
        with shim.concrete():
            for sv in (.7, 1., 2.5):
                v = np.asarray(F.solid_harmonic_3d(*sh, sv, l, fourier=fourier)).astype(complex)
                if v.shape != (2 * l + 1,) + tuple(sh):
                    return 'shape %s' % (v.shape,)
                _s = sv if fourier else 1 / sv
                e = (rr ** .5 * _s) ** l * np.exp(-.5 * rr * _s ** 2)
                tot = np.sqrt((np.abs(v) ** 2).sum(0))
                if l and np.abs(v[(slice(None), 0, 0, 0)]).max() > 1e-6 * np.abs(v).max():
                    return 'solid harmonic of order %d is not zero at the origin (width %s)' % (l, sv)
                e = e * float(level(l, fourier)) ** .5 / (1 if fourier else sv ** 3)
                if np.abs(tot - e).max() > 1e-3 * e.max() or not np.isfinite(tot).all():
                    return 'magnitude over azimuthal orders is not the normalised function of the distance (off by %.3g of %.3g, width %s)' % (np.abs(tot - e).max(), e.max(), sv)
                for i in np.ndindex(*sh):
                    if not selfmirror(i, sh) and np.abs(v[(slice(None),) + i] - (-1) ** l * v[(slice(None),) + mirror(i, sh)]).max() > 1e-4 * np.abs(v).max():
                        return 'parity of order %d fails at %s (width %s)' % (l, i, sv)
    with r.encoding(), shim.symbolic():
        poly.reset(4, 'opaque')
        s = poly.var('sigma', nonneg=True)
        h = obj(F.solid_harmonic_3d(*sh, s, l, fourier=fourier))
    cs = [('shape', h.shape == (2 * l + 1,) + tuple(sh))]
    if not cs[0][1]:
        return verdict(r, key, cs)
    pairs = []
    # every value is a constant times the radial envelope; the bound scales with it
    env = {}
    const = {}
    for i in np.ndindex(*sh):
        tot = Fraction(0)
        val = [lift(h[(m,) + i]) for m in range(2 * l + 1)]
        e = None
        for z in val:
            if z.t and e is None:
                e = near_env(z, rr[i], s, l, fourier)
        env[i] = e
        for m, z in enumerate(val):
            const[(m,) + i] = z
    pi = float(np.pi)
    ref = level(l, fourier)
    for i in np.ndindex(*sh):
        if rr[i] == 0:
            for m in range(2 * l + 1):
                if l:
                    pairs.append((const[(m,) + i], lift(0)))
            if l:
                continue
        if env[i] is None:
            return unresolved(r, key, conf, 'no response at %s' % (i,))
        e = env[i]
        # sum over azimuthal orders of squared magnitudes, as a multiple of the squared envelope
        tot = lift(0)
        for m in range(2 * l + 1):
            z = const[(m,) + i]
            tot = tot + z.real * z.real + z.imag * z.imag
        base = e * e
        lam = lead(tot, base)
        if lam is None:
            return unresolved(r, key, conf, 'the response at %s is not a multiple of the radial envelope' % (i,))
        pairs.append((tot - base.scale(ref), base.scale(ref * Fraction(1, 1000))))
        if not selfmirror(i, sh):
            for m in range(2 * l + 1):
                d = const[(m,) + i] - const[(m,) + mirror(i, sh)].scale((-1) ** l)
                d2 = const[(m,) + i]
                if env[mirror(i, sh)] is None or not env[mirror(i, sh)].same(e):
                    return unresolved(r, key, conf, 'different envelopes at %s and its mirror image' % (i,))
                pairs.append((d, e.scale(Fraction(isq(ref)) * Fraction(1, 10000))))
    if l == 0:
        pairs.append((const[(0, 0, 0, 0)] - (lift(1) if fourier else 1 / (s * s * s * lift(float((2 * np.pi) ** 1.5)))),
                      (lift(1) if fourier else 1 / (s * s * s * lift(float((2 * np.pi) ** 1.5)))).scale(Fraction(1, 10 ** 6))))
    leq(r, key, pairs, conf)


def level(l, fourier):
    """squared magnitude of a filter of unit integral (in space): 1/(4 pi int r^(l+2) exp(-r^2/2) dr), times (2 pi)^3 in frequency"""
    from math import gamma, pi
    x = 1 / (4 * pi * 2 ** ((l + 1) / 2) * gamma((l + 3) / 2))
    return Fraction((x * ((2 * pi) ** 1.5 if fourier else 1)) ** 2)


def dual(r, n, l):
    """the frequency filters are the Fourier transform of the spatial ones: same angular part up to (-i)^l (2 pi)^(3/2), reciprocal width"""
    key = 'solid harmonics of order %d on a cube of side %d: frequency against space' % (l, n)
    r.bound(key + ': every width')
    F = shim.load('kymatio.scattering3d.filter_bank')
    sh = (n, n, n)
    rF, rS = envelope(sh, None, True, l), envelope(sh, None, False, l)

    def conf():
        with shim.concrete():
            for sv in (.7, 1.3):
                f = np.asarray(F.solid_harmonic_3d(*sh, sv, l, fourier=True)).astype(complex)
                g = np.asarray(F.solid_harmonic_3d(*sh, sv, l, fourier=False)).astype(complex)
                eF = (rF ** .5 * sv) ** l * np.exp(-.5 * rF * sv ** 2)
                eS = (rS ** .5 / sv) ** l * np.exp(-.5 * rS / sv ** 2) / sv ** 3
                d = np.abs(f * eS - g * eF * (2 * np.pi) ** 1.5 * (-1j) ** l)
                b = np.abs(f * eS).max()
                if not d.max() <= 1e-4 * b:
                    return 'frequency and space filters of order %d differ by %.3g of %.3g (width %s)' % (l, d.max(), b, sv)
    with r.encoding(), shim.symbolic():
        poly.reset(4, 'opaque')
        s = poly.var('sigma', nonneg=True)
        f = obj(F.solid_harmonic_3d(*sh, s, l, fourier=True))
        g = obj(F.solid_harmonic_3d(*sh, s, l, fourier=False))
    cs = [('shape', f.shape == g.shape == (2 * l + 1,) + sh)]
    if not cs[0][1]:
        return verdict(r, key, cs)
    pairs = []
    ph = lift((-1j) ** l) * lift(float((2 * np.pi) ** 1.5))
    for i in np.ndindex(*f.shape):
        x, y = lift(f[i]), lift(g[i])
        if rF[i[1:]] == 0 and l:
            continue
        eF, eS = near_env(x, rF[i[1:]], s, l, True), near_env(y, rS[i[1:]], s, l, False)
        pairs.append((x * eS - y * eF * ph, (eF * eS).scale(Fraction(1, 10000))))
    leq(r, key, pairs, conf)


def isq(f):
    return float(f) ** .5


def lead(a, b):
    k = min(b.t)
    if k not in a.t:
        return None
    return Fraction(a.t[k], a.d) / Fraction(b.t[k], b.d)


def unresolved(r, key, conf, why):
    w = conf()
    if w:
        r.violation(key, w, dict(key=key, what=w))
    else:
        r.inconclusive(key, why)


def near_env(z, r2, s, l, fourier):
    """the positive radial envelope r^l exp(-r^2 s^2/2) s^l with the exponential that the value itself uses"""
    want = -lift(float(r2)) * s * s / 2 if fourier else -lift(float(r2)) / (2 * s * s)
    E = near_exp(z, want)
    f = s ** l if fourier else poly.inv(s) ** (l + 3) if l else poly.inv(s) ** 3
    return (E * f).scale(Fraction(float(r2) ** (l / 2.)))


def bank(r, sh, J, L):
    """one filter per scale and azimuthal order, widths doubling"""
    key = '3D filter banks %s J=%d L=%d' % (sh, J, L)
    r.bound(key + ': every width and filter value')
    F = shim.load('kymatio.scattering3d.filter_bank')
    made = {}

    def g3(M, N, O, sigma, fourier=True):
        k = ('g', (M, N, O), sigma.key(), fourier)
        if k not in made:
            made[k] = symarr.symvar('g%d' % len(made), (M, N, O))
        return made[k]

    def h3(M, N, O, sigma, l, fourier=True):
        k = ('h', (M, N, O), sigma.key(), l, fourier)
        if k not in made:
            made[k] = symarr.symvar('h%d' % len(made), (2 * l + 1, M, N, O), np.dtype('complex64'), True)
        return made[k]
    A, B, cs = [], [], []
    with r.encoding(), shim.symbolic():
        poly.reset(4, 'opaque')
        s = poly.var('sigma', nonneg=True)
        for fo in (True, False):
            with Swap((F.gaussian_3d, g3), (F.solid_harmonic_3d, h3)):
                gb = F.gaussian_filter_bank(*sh, J, s, fourier=fo)
                hb = F.solid_harmonic_filter_bank(*sh, J, L, s, fourier=fo)
            cs += [('Gaussian bank shape', tuple(gb.shape) == (J + 1,) + tuple(sh)), ('one bank per order', len(hb) == L + 1)]
            for l, b in enumerate(hb):
                cs.append(('bank of order %d shape' % l, tuple(b.shape) == (J + 1, 2 * l + 1) + tuple(sh)))
            if all(c for _, c in cs):
                for j in range(J + 1):
                    A.extend(obj(gb[j]).ravel())
                    B.extend(obj(g3(*sh, s * 2 ** j, fo)).ravel())
                    for l in range(L + 1):
                        A.extend(obj(hb[l][j]).ravel())
                        B.extend(obj(h3(*sh, s * 2 ** j, l, fo)).ravel())

    def conf():
        with shim.concrete():
            # narrow and wide banks: each scale is seen where its values are far from saturation
            for s0 in [1.1 / 2 ** q for q in range(0, J + 1)]:
                for fo in (True, False):
                    gb = F.gaussian_filter_bank(*sh, J, s0, fourier=fo)
                    hb = F.solid_harmonic_filter_bank(*sh, J, L, s0, fourier=fo)
                    for j in range(J + 1):
                        e = F.gaussian_3d(*sh, s0 * 2 ** j, fourier=fo)
                        if np.abs(gb[j] - e).max() > 1e-5 * (1 + np.abs(e).max()):
                            return 'Gaussian bank of width %g: scale %d does not have width sigma0*2**%d' % (s0, j, j)
                        for l in range(L + 1):
                            e = F.solid_harmonic_3d(*sh, s0 * 2 ** j, l, fourier=fo)
                            if np.abs(hb[l][j] - e).max() > 1e-5 * (1 + np.abs(e).max()):
                                return 'harmonic bank of width %g: scale %d order %d does not have width sigma0*2**%d' % (s0, j, l, j)
    verdict(r, key, cs, A, B, 'filters', conf)
    if conf() is None:
        r.validated += 1


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = [job('checks.c20', 'dfact', 1, top=30)]
    for a in ((1, 1, 1, 1, 3), (2, 1, 1, 1, 2), (1, 1, 1, 2, 2), (2, 2, 2, 1, 1), (1, 2, 1, 2, 1)) + (() if q else ((2, 2, 2, 1, 2), (2, 2, 2, 2, 2), (1, 1, 1, 1, 6), (3, 2, 2, 1, 3))):
        out.append(job('checks.c20', 'wsum', a[0] * a[1] * a[2] * a[3] * a[4], **dict(zip(('M', 'N', 'O', 'B', 'P'), a)), limit=600))
    for sh in ((1, 1, 1), (2, 1, 2)) + (() if q else ((2, 2, 2), (3, 2, 4))):
        out.append(job('checks.c20', 'angles', 1, sh=sh))
    shapes = ((2, 2, 2), (4, 3, 2), (3, 5, 4), (4, 4, 4)) + (() if q else ((5, 5, 5), (6, 8, 7), (8, 8, 8), (7, 3, 9)) + (((9, 9, 9), (10, 8, 12), (12, 12, 12)) if deep else ()))
    for sh in shapes:
        for fo in (True, False):
            out.append(job('checks.c20', 'gaussian', 2, sh=sh, fourier=fo))
            for l in range(0, 8 if deep else 6):
                out.append(job('checks.c20', 'harmonic', 3 + l, sh=sh, l=l, fourier=fo, limit=600))
    for n in (3, 4) if q else (3, 4, 6, 7) + ((8,) if deep else ()):
        for l in range(0, 8 if deep else 6):
            out.append(job('checks.c20', 'dual', 3 + l, n=n, l=l, limit=600))
    for sh, J, L in (((2, 1, 2), 0, 0), ((2, 2, 1), 1, 2), ((1, 1, 1), 3, 3), ((1, 1, 1), 8, 8), ((2, 1, 1), 12, 3)) + (() if q else (((2, 3, 2), 4, 3), ((1, 1, 1), 12, 12))):
        out.append(job('checks.c20', 'bank', 2, sh=sh, J=J, L=L))
    return out
