"""1D wavelet filterbank parameters: the real generators run over symbolic bandwidth constants, frequencies and scales."""
from .free import *
from vk.poly import Z
ASSUMPTIONS = ASSUME + [
    'the n-th roots of two are the floating-point constants that the code computes; everything else is exact real arithmetic',
    'the logarithm of the band ratio is an uninterpreted real with the right sign, bounded where stated',
]
BANDMIN = Fraction(1, 2 ** 40)


def fb():
    return shim.load('kymatio.scattering1d.filter_bank')


def lg(v):
    """log(1/r) as the code sees it"""
    return shim.MATH.log(1 / v)


def ratio(t):
    """the band ratio r with (2 log(1/r))^-1/2 = t: every ratio in (0,1) for every t > 0, and a replay knows r exactly"""
    if isinstance(t, Z):
        return (-lift(1) / (2 * t * t)).exp()
    return float(np.exp(-1 / (2 * float(t) ** 2)))


def width(r):
    return 1 / float(np.sqrt(-2 * np.log(r)))


def subsampling(r):
    """the largest dyadic factor that keeps the essential band below the subsampled Nyquist frequency"""
    r.bound('get_max_dyadic_subsampling: every real xi in [-1/2, 1/2], sigma > 0, alpha > 0 with |xi|+alpha sigma >= 2^-40')

    def body(v):
        xi, s, a = v['xi'], v['sigma'], v['alpha']
        j = fb().get_max_dyadic_subsampling(xi, s, alpha=a)
        band = abs(xi) + a * s
        return [('an integer', isinstance(j, (int, np.integer, SInt))),
                ('not negative', j >= 0),
                ('band below the subsampled Nyquist frequency', band * 2 ** (j + 1) <= 1 if j > 0 else True),
                ('no larger factor qualifies', band * 2 ** (j + 2) > 1)]
    explore_free(r, 'largest subsampling', body, dict(xi=Real(), sigma=Real(), alpha=Real()),
                 lambda v: [v['xi'] <= Fraction(1, 2), v['xi'] >= -Fraction(1, 2), v['sigma'] > 0, v['alpha'] > 0,
                            abs(v['xi']) + v['alpha'] * v['sigma'] >= BANDMIN],
                 samples=[dict(xi=.35, sigma=.1, alpha=5.), dict(xi=.125, sigma=1e-9, alpha=5.), dict(xi=-.01, sigma=.003, alpha=5.)],
                 max_paths=400, seconds=100)

    def mirror(v):
        f = fb().get_max_dyadic_subsampling
        return [('mirror images share their factor', f(v['xi'], v['sigma'], alpha=v['alpha']) == f(-v['xi'], v['sigma'], alpha=v['alpha'])),
                ('other bank constants are ignored', f(v['xi'], v['sigma'], alpha=v['alpha'], r_psi=.7, sigma0=.1) == f(v['xi'], v['sigma'], v['alpha']))]
    explore_free(r, 'subsampling of mirror images', mirror, dict(xi=Real(), sigma=Real(), alpha=Real()),
                 lambda v: [v['xi'] <= Fraction(1, 2), v['xi'] >= 0, v['sigma'] > 0, v['alpha'] > 0,
                            v['xi'] + v['alpha'] * v['sigma'] >= Fraction(1, 2 ** 20)], max_paths=400, seconds=100)


def sigmapsi(r, Qs):
    """neighbouring wavelets of the family meet at the prescribed height"""
    r.bound('compute_sigma_psi: every xi > 0, every band ratio 0 < r < 1, Q in %s' % (list(Qs),))
    for Q in Qs:
        def body(v):
            xi, rr = v['xi'], v['r']
            s = fb().compute_sigma_psi(xi, Q, rr)
            s2 = fb().compute_sigma_psi(xi, Q, r=rr)
            f = 1. / np.power(2, 1. / Q)
            if isinstance(s, Z):
                d = (2 * lg(rr)).sqrt()      # half width of a unit Gaussian at height r
                f = lift(float(f))
            else:
                d = float(np.sqrt(2 * np.log(1 / float(rr))))
                s, s2, xi = float(s), float(s2), float(xi)
            tol = Fraction(1, 10 ** 9)
            gap = xi - s * d - (xi * f + s * f * d)
            return [('positive', s > 0), ('neighbours intersect at height r', (gap <= xi * tol) & (gap >= -xi * tol) if isinstance(gap, Z) else abs(gap) < 1e-9 * xi),
                    ('same by keyword', s == s2)]
        explore_free(r, 'bandwidth for Q=%d' % Q, body, dict(xi=Real(), r=Real()), lambda v: [v['xi'] > 0, v['r'] > 0, v['r'] < 1],
                     samples=[dict(xi=.35, r=.7), dict(xi=.1, r=.5), dict(xi=.4, r=.9)], seconds=60)

    def default(v):
        return [('the default band ratio is the square root of one half', abs(float(fb().compute_sigma_psi(1., v['Q']) / fb().compute_sigma_psi(
            1., v['Q'], math_sqrt_half())) - 1) < 1e-12)]
    explore_free(r, 'default band ratio', default, dict(Q=Int()), lambda v: [v['Q'] >= 1, v['Q'] <= 32], ints=True, seconds=60)


def math_sqrt_half():
    return float(np.sqrt(.5))


def ximax(r, Qmax):
    r.bound('compute_xi_max: every Q in 1..%d' % Qmax)

    def body(v):
        x = fb().compute_xi_max(v['Q'])
        q = int(v['Q'])
        x0 = fb().compute_xi_max(q + 1)
        return [('largest frequency is at least 0.35', x >= .35), ('and below Nyquist', x < .5), ('non-decreasing in Q', x0 >= x),
                ('the next frequency beyond it would mirror into it', abs(x - max(.35, 1 / (1 + 2 ** (3 / q)))) < 1e-12)]
    explore_free(r, 'largest centre frequency', body, dict(Q=Int()), lambda v: [v['Q'] >= 1, v['Q'] <= Qmax], ints=True,
                 samples=[dict(Q=1), dict(Q=8)], seconds=100)


def bank(r, Q, Jmax, Jmin=0):
    """one filterbank over all scales and bandwidth constants"""
    r.bound('anden_generator with Q=%d: every J in %d..%d, every sigma0 in [0.1, 1], every band ratio' % (Q, Jmin, Jmax))

    def body(v):
        J, s0, rr = v['J'], v['s0'], ratio(v['t'])
        g = list(fb().anden_generator(J, Q, sigma0=s0, r_psi=rr, alpha=5.))
        J = int(J)
        smin = s0 / 2 ** J
        cs = []
        # rounding: the solver looks for differences that floating point can show
        eps = Fraction(1, 10 ** 7) if isinstance(s0, Z) else 1e-9
        lo, hi = 1 - eps, 1 + eps
        first = fb().compute_xi_max(Q)
        sig1 = fb().compute_sigma_psi(first, Q, r=rr)
        geo = [i for i, (x, s) in enumerate(g) if not same(s, smin)]
        p = float(np.power(2, 1 / Q))
        p = lift(p) if isinstance(s0, Z) else p
        k = len(geo)
        for i, (x, s) in enumerate(g):
            # scaled quantities are linear in one unknown
            cs += [('centre frequency %d positive' % i, x > 0), ('centre frequency %d below Nyquist' % i, x < Fraction(1, 2)),
                   ('bandwidth %d not below the minimum' % i, s >= smin * lo)]
            if i:
                cs += [('centre frequencies strictly decreasing at %d' % i, x < g[i - 1][0]), ('bandwidths non-increasing at %d' % i, s <= g[i - 1][1] * hi)]
        cs.append(('at most (J+1)Q filters', len(g) <= max((J + 1) * Q, Q)))
        if k:
            cs.append(('the first wavelet has the largest frequency', close(g[0][0], first)))
            for i in geo:
                cs.append(('wavelet %d follows its neighbour in the geometric progression' % i, close(g[i][0] * p ** i, first)))
                cs.append(('wavelet %d has constant relative bandwidth' % i, close(g[i][1] * p ** i, sig1)))
            cs.append(('the progression stops within one step of the minimum bandwidth', g[k - 1][1] <= smin * p * hi))
            elbow = g[k - 1][0]
        else:
            cs.append(('no constant-Q region only when the widest bandwidth is below the minimum', sig1 <= smin * hi))
            elbow = sig1
        cs.append(('Q-1 wavelets below the elbow', len(g) == k + Q - 1))
        for q in range(Q - 1):
            if k + q < len(g):
                cs.append(('low-frequency wavelet %d in arithmetic progression' % q, close(g[k + q][0] * Q, elbow * (Q - 1 - q))))
        return cs

    def same(a, b):
        return lift(a).same(b) if isinstance(a, Z) or isinstance(b, Z) else a == b

    def close(a, b):
        if isinstance(a, Z) or isinstance(b, Z):
            d = lift(a) - b
            t = lift(b) * Fraction(1, 10 ** 7)
            return (d <= t) & (-d <= t) if not isinstance(d <= t, bool) else (d <= t and -d <= t)
        return abs(a - b) <= 1e-9 * abs(b)

    def assume(v):
        # any band ratio for which neighbouring bandwidths are compatible with the minimum bandwidth at J=0
        s1 = fb().compute_sigma_psi(fb().compute_xi_max(Q), Q, r=ratio(v['t']))
        return [v['J'] >= Jmin, v['J'] <= Jmax, v['t'] > 0, v['s0'] >= Fraction(1, 10), v['s0'] <= 1,
                s1 <= v['s0'] * float(np.power(2, 1 / Q)) * (1 - Fraction(1, 10 ** 9)), s1 < Fraction(1, 2), s1 >= Fraction(1, 1000)]
    h = math_sqrt_half()
    explore_free(r, 'filterbank Q=%d J %d..%d' % (Q, Jmin, Jmax), body, dict(J=Int(), s0=Real(), t=Real()), assume,
                 samples=[dict(J=Jmin, s0=.1, t=width(h)), dict(J=Jmax, s0=.1, t=width(h)), dict(J=Jmax, s0=.12, t=width(.6))], ints=True, max_paths=3000, seconds=250)


def scales(r, Q1, Q2, Jmin, Jmax):
    """scales that the cascade and its bookkeeping rely on (C07, C10, C16)"""
    r.bound('filter scales with Q=(%d,%d): every J in %d..%d, sigma0 within 0.1%% of 0.1 from above, band ratio within 0.1%% of sqrt(1/2)' % (Q1, Q2, Jmin, Jmax))

    def body(v):
        J, s0, rr = v['J'], v['s0'], ratio(v['t'])
        F = fb()
        cs, top = [], []
        for Q in (Q1, Q2) if Q1 != Q2 else (Q1,):
            kw = dict(alpha=5., r_psi=rr, sigma0=s0)
            g = list(F.anden_generator(J, Q, **kw))
            js = [F.get_max_dyadic_subsampling(x, s, **kw) for x, s in g]
            for i, j in enumerate(js):
                cs.append(('Q=%d: scale of filter %d between 0 and J' % (Q, i), 0 <= j and j <= int(J)))
                if i:
                    cs.append(('Q=%d: scales non-decreasing at filter %d' % (Q, i), j >= js[i - 1]))
            top.append(max(js) if js else 0)
        cs.append(('second-order scales never exceed the first-order ones', top[-1] <= top[0]))
        return cs

    def assume(v):
        return [v['J'] >= Jmin, v['J'] <= Jmax, v['t'] >= Fraction(120100, 100000), v['t'] <= Fraction(120125, 100000),
                v['s0'] >= Fraction(1, 10), v['s0'] <= Fraction(1001, 10000)]
    h = math_sqrt_half()
    explore_free(r, 'scales Q=(%d,%d) J %d..%d' % (Q1, Q2, Jmin, Jmax), body, dict(J=Int(), s0=Real(), t=Real()), assume,
                 samples=[dict(J=Jmin, s0=.1, t=width(h)), dict(J=Jmax, s0=.1, t=width(h))], ints=True, max_paths=3000, seconds=250)


def spinned(r, n):
    """a spinned bank holds the filters and then their mirror images"""
    r.bound('spin of every filterbank of %d filters with real frequencies and bandwidths' % n)

    def body(v):
        base = [(v['x%d' % i], v['s%d' % i]) for i in range(n)]
        seen = []

        def gen(J, Q, **kw):
            seen.append((J, Q, kw))
            yield from base
        fn, kw = fb().spin(gen, dict(alpha=5., sigma0=.1))
        got = list(fn(3, 2, **kw))
        want = base + [(-x, s) for x, s in base]
        cs = [('number of filters', len(got) == 2 * n), ('constants handed through', kw == dict(alpha=5., sigma0=.1)),
              ('same scale, quality factor and constants', all(t == (3, 2, dict(alpha=5., sigma0=.1)) for t in seen) and len(seen) > 0)]
        for i, ((a, b), (c, d)) in enumerate(zip(got, want)):
            cs += [('frequency %d' % i, a == c), ('bandwidth %d' % i, b == d)]
        return cs
    vs = {}
    for i in range(n):
        vs['x%d' % i] = Real()
        vs['s%d' % i] = Real()
    explore_free(r, 'spin of %d filters' % n, body, vs, samples=[{k: .1 + .01 * i for i, k in enumerate(vs)}])


def jobs(tier):
    q = tier == 'quick'
    out = [job('checks.c09', 'subsampling', 5), job('checks.c09', 'sigmapsi', 3, Qs=range(1, 9 if q else 25)),
           job('checks.c09', 'ximax', 2, Qmax=16 if q else 64)]
    for n in (0, 1, 3, 6):
        out.append(job('checks.c09', 'spinned', 1, n=n))
    # (Q, J range): whole filterbanks
    banks = [(1, 0, 12), (2, 0, 4), (2, 5, 8), (3, 0, 4), (4, 0, 3), (5, 2, 3), (8, 0, 2), (8, 3, 3), (12, 0, 1), (12, 2, 2)]
    if not q:
        banks += [(2, 9, 12), (3, 5, 6), (3, 7, 8), (3, 9, 10), (4, 4, 5), (4, 6, 6), (4, 7, 7), (4, 8, 8), (5, 4, 4), (5, 5, 5), (5, 6, 6), (6, 0, 3),
                  (6, 4, 4), (6, 5, 5), (7, 0, 3), (7, 4, 4), (8, 4, 4), (8, 5, 5), (8, 6, 6), (10, 0, 2), (10, 3, 3), (12, 3, 3), (12, 4, 4), (16, 0, 2), (16, 3, 3)]
    for Q, a, b in banks:
        out.append(job('checks.c09', 'bank', Q * b * b / 4, Q=Q, Jmin=a, Jmax=b, limit=600))
    sc = [(1, 1, 0, 10), (8, 1, 0, 3), (8, 1, 4, 6), (8, 1, 7, 8), (3, 2, 0, 5), (2, 2, 0, 6), (12, 1, 0, 4), (16, 4, 0, 3)]
    if not q:
        sc += [(8, 1, 9, 10), (8, 1, 11, 12), (12, 1, 5, 8), (12, 1, 9, 12), (16, 1, 4, 8), (12, 2, 0, 6), (8, 8, 0, 6), (4, 3, 0, 10), (24, 1, 0, 6)]
    for Q1, Q2, a, b in sc:
        out.append(job('checks.c09', 'scales', Q1 * b / 8, Q1=Q1, Q2=Q2, Jmin=a, Jmax=b, limit=600))
    return out
