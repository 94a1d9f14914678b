"""1D filters: real morlet_1d/gauss_1d over symbolic frequencies and bandwidths; real filter factory over symbolic scales."""
from .free import *
from vk.poly import Z, primitive
from vk.prove import prove_equal
ASSUMPTIONS = ASSUME + [
    'the exponential is an uninterpreted function with its sign, its value at zero and strict monotonicity; the inverse transform in the '
    'normalisation is an uninterpreted linear map (opaque Fourier outputs); filters are not identically zero',
    'resolutions: filter values and scales are arbitrary (stubs for morlet_1d, gauss_1d and get_max_dyadic_subsampling, which have obligations of their own), '
    'second-order scales do not exceed the largest first-order scale (established in C09)',
]


def fb():
    return shim.load('kymatio.scattering1d.filter_bank')


def geq0(z):
    """z >= 0 after removing common non-negative factors"""
    if not isinstance(z, Z):
        return z >= -1e-12
    if z.is_zero():
        return True
    c, m, p = primitive(z)
    keep = [i for i in m if not C.atoms[i].nonneg]
    if keep:
        return z >= 0
    return (p >= 0) if c > 0 else (-p >= 0)


def periods(sigma):
    """1 .. 5 periods of the spectrum: tail below 1e-7"""
    v = (-2 * sigma * sigma * lift(float(np.log(1e-7)))).sqrt() if isinstance(sigma, Z) else float(np.sqrt(-2 * sigma ** 2 * np.log(1e-7)))
    return min(shim.MATH.ceil(v + 1), 5)


def gauss(N, c, sigma, P):
    """Gaussian centred at c, periodised over [1-P, P)"""
    one = [Fraction(k, N) + p for p in range(1 - P, P) for k in range(N)]
    e = []
    for f in one:
        if isinstance(sigma, Z):
            d = lift(f) - c
            e.append((-(d * d) / (2 * sigma * sigma)).exp())
        else:
            e.append(float(np.exp(-(float(f) - float(c)) ** 2 / (2 * float(sigma) ** 2))))
    return [sum(e[p * N + k] for p in range(2 * P - 1)) for k in range(N)]


def l1(f):
    if isinstance(f[0], Z):
        o = np.empty(len(f), dtype=object)
        o[:] = f
        return sum((abs(z) for z in poly.fft_vec(o, True)), lift(0))
    return float(np.abs(np.fft.ifft(np.array(f, dtype=float))).sum())


def one(z, S):
    """unit norm of a filter that is not identically zero"""
    c = z == 1
    if isinstance(c, bool):
        return c
    n = S == 0
    return c if n is False else c | n


def near(a, b):
    if isinstance(a, Z) or isinstance(b, Z):
        a, b = lift(a), lift(b)
        return True if a.same(b) else a == b
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def morlet(r, N, Pmax, real=True):
    """wavelets: zero mean, unit norm, Gaussian bump minus a multiple of the low-pass bump"""
    r.bound('morlet_1d, length %d, every frequency in [-1/2, 1/2] but 0, every bandwidth with at most %d spectral periods' % (N, Pmax))

    def body(v):
        xi, s = v['xi'], v['s']
        if not isinstance(s, Z):
            xi, s = float(xi), float(s)
        h = fb().morlet_1d(N, xi, s)
        P = periods(s)
        g, low = gauss(N, xi, s, P), gauss(N, 0, s, P)
        k = g[0] / low[0]
        f = [a - k * b for a, b in zip(g, low)]
        S = l1(f)
        e = list(obj(h)) if isinstance(h, SymArray) else [complex(x) if np.iscomplexobj(h) else float(x) for x in h]
        cs = [('length', tuple(h.shape) == (N,)), ('real spectrum', h.dtype.kind == 'f'),
              ('zero mean', near(e[0], 0.) if not isinstance(s, Z) else zero(e[0])),
              ('unit l1 norm', near(l1(e), 1.) if not isinstance(s, Z) else one(l1(e), S))]
        for i in range(N):
            cs.append(('value %d' % i, near(e[i], f[i] / S) if not isinstance(s, Z) else prop(e[i], f[i], S)))
        return cs

    def zero(z):
        return z == 0

    def prop(a, b, S):
        b = b / S
        return True if a.same(b) else a == b

    explore_free(r, 'wavelet of length %d' % N, body, dict(xi=Real(), s=Real()),
                 lambda v: [v['xi'] != 0, v['xi'] <= Fraction(1, 2), v['xi'] >= -Fraction(1, 2), v['s'] > 0,
                            v['s'] * 5677 <= (Pmax - 1) * 1000],
                 samples=[dict(xi=.3, s=.1), dict(xi=-.2, s=.05), dict(xi=.45, s=.15)] + ([dict(xi=.1, s=.3)] if Pmax > 2 else []), seconds=150)


def lowpass(r, N, Pmax):
    r.bound('gauss_1d, length %d, every bandwidth with at most %d spectral periods' % (N, Pmax))

    def body(v):
        s = v['s']
        if not isinstance(s, Z):
            s = float(s)
        h = fb().gauss_1d(N, s)
        h2 = fb().morlet_1d(N, None, s)
        P = periods(s)
        low = gauss(N, 0, s, P)
        S = l1(low)
        e = list(obj(h)) if isinstance(h, SymArray) else [float(x) for x in h]
        e2 = list(obj(h2)) if isinstance(h2, SymArray) else [float(x) for x in h2]
        cs = [('length', tuple(h.shape) == (N,)), ('real spectrum', h.dtype.kind == 'f'), ('unit l1 norm', near(l1(e), 1) if not isinstance(s, Z) else one(l1(e), S))]
        for i in range(N):
            cs.append(('value %d' % i, near(e[i], low[i] / S)))
            cs.append(('the same from morlet_1d without a frequency, %d' % i, near(e2[i], e[i])))
        # symmetric up to what the finite number of periods leaves out
        if isinstance(s, Z):
            E = (-lift(Fraction((2 * P - 2) ** 2, 4)) / (2 * s * s)).exp() if P > 1 else lift(1)
        else:
            E = float(np.exp(-(P - 1) ** 2 / (2 * s * s))) + 1e-12
        if P > 1:
            for i in range(1, (N + 1) // 2):
                d = e[i] - e[N - i]
                cs += [('symmetric at %d' % i, geq0(E * e[0] - d)), ('symmetric at -%d' % i, geq0(E * e[0] + d))]
        return cs
    explore_free(r, 'low-pass of length %d' % N, body, dict(s=Real()), lambda v: [v['s'] > 0, v['s'] * 5677 <= (Pmax - 1) * 1000],
                 samples=[dict(s=.1), dict(s=.01), dict(s=.17)] + ([dict(s=.3)] if Pmax > 2 else []), seconds=150)


class Fil:
    """stub filters: every filter is an array of unknowns of its own"""

    def __init__(self, sym, N):
        self.sym, self.N, self.made, self.bad = sym, N, {}, []

    def get(self, N, xi, sigma):
        k = (N, 'low' if not xi else xi, sigma.key() if isinstance(sigma, Z) else float(sigma))
        if k not in self.made:
            n = len(self.made)
            self.made[k] = symarr.symvar('f%d' % n, (N,)) if self.sym else np.random.RandomState(n).randint(1, 64, N) / 64.
        a = self.made[k]
        return SymArray(obj(a).copy(), a.dtype) if self.sym else a.copy()


class Mini:
    """recording backend: a signal is its resolution"""

    def __init__(self, N):
        self.N, self.bad = N, []

    def rfft(self, x): return x
    irfft = ifft = cfft = rfft
    def modulus(self, x): return x

    def cdgmm(self, x, f):
        if f.shape != (self.N >> x,):
            self.bad.append('a filter of length %s meets a signal of length %d' % (f.shape, self.N >> x))
        return x

    def subsample_fourier(self, x, k):
        k = int(k)
        return x + k.bit_length() - 1


def factory(r, n1, n2, J, N, red, paths=True):
    layers = tuple(x for x in (n1, n2) if x is not None)
    key = 'filter resolutions for %s filters per layer, J=%d, N=%d, reduction %s' % (layers, J, N, red)
    r.bound(key + ': every filter scale 0..J, every T from 1 to N, arbitrary filter values')
    names = ['a%d' % i for i in range(n1 or 0)] + ['b%d' % i for i in range(n2 or 0)]

    def body(v):
        F = fb()
        sym = isinstance(v['T'], SInt)
        st = Fil(sym, N)
        params = {}
        for li, n in enumerate(layers):
            for i in range(n):
                params[('ab'[li], i)] = (.4 - .05 * i - .01 * li, .1 - .01 * i - .001 * li)
        js = {params[(nm[0], int(nm[1:]))]: v[nm] for nm in names}
        calls = []

        def gen(J_, Q_, **kw):
            calls.append((J_, Q_, kw))
            for i in range(Q_):
                yield params[('ab'[len(calls) - 1], i)]
        kw = dict(alpha=5., r_psi=.7, sigma0=.1)
        okj = []

        def stubj(xi, sigma, alpha=None, **k):
            okj.append(alpha == 5.)
            return js[(xi, sigma)]

        def stubm(N_, xi, sigma): return st.get(N_, xi, sigma)
        def stubg(N_, sigma): return st.get(N_, None, sigma)
        red_ = {'default': {}, 'sum': dict(_reduction=np.sum), 'mean': dict(_reduction=np.mean)}[red]
        with Swap((F.morlet_1d, stubm), (F.gauss_1d, stubg), (F.get_max_dyadic_subsampling, stubj)):
            out = F.scattering_filter_factory(N, J, layers, v['T'], (gen, kw), **red_)
        T = v['T']
        lT = 0
        while T >= 2 ** (lT + 1):
            lT += 1
        cs = [('one low-pass and one list per layer', len(out) == 1 + len(layers)), ('constants handed to the generator', all(c[0] == J and c[2] == kw for c in calls)
               and [c[1] for c in calls] == list(layers)), ('band constant used', all(okj))]
        if len(out) != 1 + len(layers):
            return cs
        phi, banks = out[0], out[1:]
        jv = [[int(v['%s%d' % ('ab'[li], i)]) for i in range(n)] for li, n in enumerate(layers)]
        top = 0

        def levels(name, lv, full):
            for l, a in enumerate(lv):
                ok = tuple(a.shape) == (N >> l,)
                cs.append(('%s: length at level %d' % (name, l), ok))
                if not ok:
                    continue
                A, B = obj(a), obj(full)
                for k in range(N >> l):
                    w = sum((B[k + m * (N >> l)] for m in range(2 ** l)), lift(0) if sym else 0.)
                    if red == 'mean':
                        w = w / 2 ** l
                    cs.append(('%s: level %d is the periodisation of the finest one' % (name, l), near(A[k], w)))
        for li, n in enumerate(layers):
            cs.append(('layer %d: number of filters' % (li + 1), len(banks[li]) == n))
            if len(banks[li]) != n:
                continue
            for i in range(n):
                p = banks[li][i]
                xi, sg = params[('ab'[li], i)]
                nm = 'layer %d filter %d' % (li + 1, i)
                cs += [(nm + ': frequency', p['xi'] == xi), (nm + ': bandwidth', p['sigma'] == sg), (nm + ': scale', p['j'] == v['%s%d' % ('ab'[li], i)])]
                need = max(1, min(top, jv[li][i], 1 + lT)) if li else 1
                if li == 0:
                    cs.append((nm + ': full resolution only', len(p['levels']) == 1))
                else:
                    cs.append((nm + ': every resolution a path can request', len(p['levels']) >= need))
                levels(nm, p['levels'], st.get(N, xi, sg))
            top = max([top] + jv[li])
        cs += [('low-pass: frequency zero', phi['xi'] == 0), ('low-pass: scale', phi['j'] == lT), ('low-pass: length', phi['N'] == N)]
        sg = lift(.1) / lift(T) if sym else .1 / T
        cs.append(('low-pass: bandwidth', near(phi['sigma'], sg)))
        cs.append(('low-pass: every resolution a path can request', len(phi['levels']) >= max(1, 1 + lT)))
        levels('low-pass', phi['levels'], st.get(N, None, sg))
        if paths and len(layers) and 2 ** J <= N:
            from kymatio.scattering1d.core.scattering1d import scattering1d
            for loc, ls in [(True, l) for l in range(lT + 1)] + ([(False, J)] if lT == J else []):
                be = Mini(N)
                try:
                    list(scattering1d(0, be, list(out), ls, loc))
                    cs.append(('every path finds its filters at its resolution (stride 2**%d, average %s)' % (ls, loc), not be.bad))
                except (IndexError, KeyError) as e:
                    cs.append(('a path requests a missing resolution (stride 2**%d, average %s)' % (ls, loc), False))
        return cs

    def assume(v):
        c = [v['T'] >= 1, v['T'] <= N]
        for nm in names:
            c += [v[nm] >= 0, v[nm] <= J]
        for i in range(1, n1 or 0):
            c.append(v['a%d' % (i - 1)] <= v['a%d' % i])
        for i in range(n2 or 0):
            if i:
                c.append(v['b%d' % (i - 1)] <= v['b%d' % i])
            if n1:
                c.append(v['b%d' % i] <= v['a%d' % (n1 - 1)])
        return c
    vs = {n: Int() for n in names}
    vs['T'] = Int()
    smp = [dict({n: max(0, int(n[1:]) + J - ((n1 or 0) if n[0] == 'a' else (n2 or 0)) + 1) for n in names}, T=2 ** J), dict({n: 0 for n in names}, T=1),
           dict({n: J for n in names}, T=N)]
    explore_free(r, key, body, vs, assume, samples=smp, ints=True, seconds=250, max_paths=6000)


def frontend(r, cls, cfg):
    """the bank that the transform objects really build"""
    nm = ' '.join('%s=%s' % kv for kv in sorted(cfg.items()))
    key = 'filters of %s %s' % (cls, nm)
    r.bound(key + ': arbitrary filter values')
    with r.encoding(), shim.symbolic():
        poly.reset(4, 'opaque')
        F = fb()
        if cls == 'Scattering1D':
            from kymatio.scattering1d.frontend.numpy_frontend import ScatteringNumPy1D as K
        else:
            from kymatio.scattering1d.frontend.numpy_frontend import TimeFrequencyScatteringNumPy as K
        with shim.concrete():
            O = K(**cfg)
            st = None
        st = Fil(True, 0)
        concrete_g = F.gauss_1d

        def stubm(N_, xi, sigma): return st.get(N_, xi, sigma)
        def stubg(N_, sigma): return st.get(N_, None, sigma)
        with Swap((F.morlet_1d, stubm), (F.gauss_1d, stubg)):
            if cls == 'Scattering1D':
                K.create_filters(O)
                groups = [(O._N_padded, O.phi_f, [O.psi1_f, O.psi2_f], O.T, [(O.psi1_f, O.Q[0]), (O.psi2_f, O.Q[1])], O.J, False)]
            else:
                K.create_filters(O)
                p0, ps = O.filters_fr
                groups = [(O._N_padded_fr, p0, [], O.F, [], O.J_fr, True), (O._N_padded_fr, ps[0], [ps[1:]], 2 ** O.J_fr, [(ps[1:], O.Q_fr[0])], O.J_fr, True)]
        cs = []
        for N, phi, banks, T, gens, J, fr in groups:
            lT = int(np.floor(np.log2(T)))
            cs += [('low-pass scale', phi['j'] == lT), ('low-pass frequency', phi['xi'] == 0), ('low-pass bandwidth', abs(phi['sigma'] - .1 / T) < 1e-15),
                   ('low-pass length', phi['N'] == N), ('low-pass resolutions', len(phi['levels']) >= 1 + lT)]
            allf = [('low-pass', phi)]
            for bank, Q in gens:
                want = list(F.anden_generator(J, Q, alpha=5., r_psi=math_half(), sigma0=.1))
                if fr:
                    want = want + [(-x, s) for x, s in want]
                cs.append(('number of wavelets', len(bank) == len(want)))
                for i, (p, (x, s)) in enumerate(zip(bank, want)):
                    jj = F.get_max_dyadic_subsampling(x, s, alpha=5.)
                    cs += [('wavelet %d frequency' % i, abs(p['xi'] - x) < 1e-15), ('wavelet %d bandwidth' % i, abs(p['sigma'] - s) < 1e-15),
                           ('wavelet %d scale' % i, p['j'] == jj)]
                    allf.append(('wavelet %d' % i, p))
            A, B = [], []
            for n_, p in allf:
                full = obj(st.get(N, p['xi'], p['sigma']))
                for l, a in enumerate(p['levels']):
                    M = N >> l
                    cs.append(('%s level %d length' % (n_, l), tuple(a.shape) == (M,) and M << l == N))
                    if tuple(a.shape) != (M,):
                        continue
                    for k in range(M):
                        A.append(lift(obj(a)[k]))
                        B.append(sum((full[k + m * M] for m in range(2 ** l)), lift(0)))
            st_, info = prove_equal(A, B)
            cs.append(('every level is the periodisation of the finest one', st_ == 'proved' if st_ != 'unknown' else None))
    bad = [l for l, c in cs if c is False or (c is not None and not bool(c))]
    if bad:
        r.violation('%s: %s' % (key, bad[0]), 'the real object has: %s' % '; '.join(bad)[:400], dict(config=cfg, failing=bad[:20]))
    elif any(c is None for _, c in cs):
        r.inconclusive(key, 'solver gave no answer')
    else:
        r.ok(key, len(cs))


def math_half():
    return float(np.sqrt(.5))


def jobs(tier):
    q = tier == 'quick'
    out = []
    for N, P in ((4, 2), (8, 2), (4, 3)) + (() if q else ((4, 5), (16, 2), (8, 3), (8, 5))):
        out.append(job('checks.c10', 'morlet', N * P, N=N, Pmax=P, limit=600))
        out.append(job('checks.c10', 'lowpass', N * P, N=N, Pmax=P, limit=600))
    for n1, n2, J, N, red in ((1, 1, 2, 8, 'default'), (2, 2, 2, 8, 'default'), (2, None, 2, 8, 'sum'), (None, None, 3, 16, 'sum'), (2, 1, 3, 16, 'default'),
                              (1, 2, 3, 16, 'mean'), (2, 2, 3, 8, 'sum')) + (
            () if q else ((2, 2, 3, 16, 'default'), (3, 2, 3, 16, 'default'), (2, 2, 4, 32, 'default'), (3, 3, 3, 16, 'sum'), (2, 3, 4, 16, 'default'))):
        out.append(job('checks.c10', 'factory', 10 * J, n1=n1, n2=n2, J=J, N=N, red=red, limit=600))
    for n1, n2, J, N in ((1, 1, 5, 32), (1, 1, 7, 128)) + (() if q else ((2, 1, 6, 64), (1, 1, 9, 512))):
        out.append(job('checks.c10', 'factory', 40, n1=n1, n2=n2, J=J, N=N, red='default', limit=600))
    for c in (dict(J=2, shape=16, Q=1), dict(J=3, shape=24, Q=(2, 1)), dict(J=3, shape=32, Q=4, T=4), dict(J=2, shape=20, Q=2, T=16)) + (
            () if q else (dict(J=4, shape=64, Q=(3, 2)), dict(J=4, shape=64, Q=(8, 1), T=8), dict(J=5, shape=64, Q=1, T=2))):
        out.append(job('checks.c10', 'frontend', 4, cls='Scattering1D', cfg=c))
    for c in (dict(J=3, J_fr=2, shape=32, Q=2), dict(J=3, J_fr=3, shape=32, Q=4, F=2)) + (
            () if q else (dict(J=4, J_fr=3, shape=64, Q=(4, 2), Q_fr=2), dict(J=4, J_fr=2, shape=64, Q=8, F=8))):
        out.append(job('checks.c10', 'frontend', 4, cls='TimeFrequencyScattering', cfg=c))
    return out
