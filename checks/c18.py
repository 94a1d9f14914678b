from .common import *
from .casc import *
from .absb import Rec, Sig, Flt, Opaque, BadOp
from .symint import explore, load_ints
ASSUMPTIONS = ASSUME + ['filter values: free symbolic variables (NumPy) or independent generic dyadic complex values']


def install(S, backend, cfg, seed=3):
    vals = [generic(f.shape, 700 * seed + k, True, den=16) for k, f in enumerate(filters3d(S))]
    put3d(S, backend, vals)
    return vals


def nm(cfg):
    return ' '.join('%s=%s' % (k, v) for k, v in sorted(cfg.items()))


def cascade(r, backend, cfg, batch=(1,), symf=False):
    S = make3d(backend, **cfg)
    key = '3D %s %s batch %s' % (backend, nm(cfg), tuple(batch))
    r.bound('3D cascade %s batch %s%s' % (nm(cfg), tuple(batch), ', symbolic filters' if symf else ''))
    ins = [In('x', tuple(batch) + tuple(cfg['shape']))]
    if symf:
        ins += [In('f%d' % k, f.shape, True) for k, f in enumerate(filters3d(S))]

        def impl(x, *f):
            for k, v in enumerate(f):
                S.filters[k] = v
            return S(x)
        check_equal(r, key + ' symbolic filters', impl, lambda x, *f: scat3d(x, cfg, f), ins, backend, kym=False, tol=3e-5)
        return
    vals = install(S, backend, cfg)
    check_equal(r, key, lambda x: S(x), lambda x: scat3d(x, cfg, vals), ins, backend, kym=False,
                tol=3e-4 if backend == 'tensorflow' else 3e-5)


def refuse(r, backend, shape=(2, 3, 2)):
    S = make3d(backend, J=0, shape=shape, L=0)
    for i in range(3):
        for d in (-1, 1):
            bad = list(shape)
            bad[i] += d
            check_equal(r, '3D %s refuses volume %s for %s' % (backend, bad, shape), lambda x: S(x), None,
                        [In('x', [1] + bad)], backend, kym=False, expect_error=(RuntimeError, ValueError))
    check_equal(r, '3D %s refuses an image' % backend, lambda x: S(x), None, [In('x', shape[:2])], backend, kym=False,
                expect_error=(RuntimeError, ValueError))

    def other():
        T = make3d(backend, J=0, shape=shape, L=0, method='local')
        return lambda x: T(x)
    check_equal(r, '3D %s refuses an unknown method' % backend, lambda x: other()(x), None, [In('x', (1,) + tuple(shape))],
                backend, kym=False, expect_error=ValueError)


class Rec3(Rec):
    """recording backend with volumes: every filter product, modulus and sum over azimuthal orders is recorded"""

    def cdgmm3d(self, x, f):
        if not isinstance(x, Sig) or x.dom != 'f' or not isinstance(f, Flt):
            raise BadOp('product of things that are not a spectrum and a filter')
        return x.but(hist=x.hist + (('filter', f.name),))

    cdgmm = cdgmm3d

    def modulus_rotation(self, x, module=None):
        self._t(x, 'modulus')
        if module is not None:
            self._t(module, 'modulus')
            if not module.real or module.hist[-1][0] != 'rotation':
                raise BadOp('accumulation onto something that is not a sum over azimuthal orders')
        return x.but(real=True, hist=(('rotation', (module.hist[-1][1] if module is not None else ()) + (x.hist,)),))

    def stack(self, xs, L):
        return list(xs), L


class Bank(Opaque):
    """filters[l][j][m]; the number of azimuthal orders of degree l is 2 l + 1 (established by C17)"""

    def __init__(self, name, sizes):
        self.name, self.sizes = name, sizes

    def __len__(self):
        return int(self.sizes[0](*self.name))

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[k] for k in range(*i.indices(len(self)))]
        if isinstance(i, tuple):
            x = self
            for k in i:
                x = x[k]
            return x
        i = int(i)
        n = len(self)
        if not -n <= i < n:
            raise IndexError('filter %s of %d' % (i, n))
        name = self.name + (i % n,)
        return Bank(name, self.sizes[1:]) if len(self.sizes) > 1 else Flt(name, None, None, None)


def book(r, Jmax, Lmax):
    """which wavelets and which azimuthal orders enter which coefficient, for every number of scales and degrees"""
    key = '3D path bookkeeping'
    r.bound('%s: every J in 0..%d, every L in 0..%d, both covariance modes, orders 1 and 2 (contents abstracted to their history)' % (key, Jmax, Lmax))

    def first(x, l, j, cov):
        """the signal after one layer"""
        if not cov:
            return x + (('filter', (l, j, 0)), ('modulus',))
        return (('rotation', frozenset(x + (('filter', (l, j, m)),) for m in range(2 * l + 1))),)

    def norm(h):
        return tuple(('rotation', frozenset(norm(q) for q in t[1])) if t[0] == 'rotation' else t for t in h)

    def dups(h):
        return any(t[0] == 'rotation' and (len({norm(q) for q in t[1]}) != len(t[1]) or any(dups(q) for q in t[1])) for t in h)

    def body(v):
        from kymatio.scattering3d.core.scattering3d import scattering3d
        J, L = int(v['J']), int(v['L'])
        cov, order = bool(v['cov'] == 1), int(v['order'])
        rec = Rec3()
        filters = Bank((), (lambda: L + 1, lambda l: J + 1, lambda l, j: 2 * l + 1))

        def averaging(x):
            rec._t(x, 'average')
            if not x.real:
                raise BadOp('average of a complex signal')
            return x.but(hist=x.hist + (('average',),))
        x = Sig(['sp'], {'sp': 0}, {'sp': 0}, 't', True, ())
        out, L2 = scattering3d(x, filters, cov, L, J, order, rec, averaging)
        cs = [('number of degrees given to the output layout', L2 == L)]
        paths = [(j,) for j in range(J + 1)] + ([(j, k) for j in range(J + 1) for k in range(j + 1, J + 1)] if order == 2 else [])
        cs.append(('number of coefficients', len(out) == len(paths) * (L + 1)))
        if len(out) == len(paths) * (L + 1):
            for i, p in enumerate(paths):
                for l in range(L + 1):
                    c = out[i * (L + 1) + l]
                    w = ()
                    for j in p:
                        w = first(w, l, j, cov)
                    nm = 'order %d' % len(p)
                    ok = isinstance(c, Sig) and c.dom == 't' and c.real
                    cs.append(('coefficients of %s are real signals' % nm, ok))
                    if ok:
                        cs.append(('%s: scales, degrees and azimuthal orders' % nm, norm(c.hist) == norm(w + (('average',),))))
                        cs.append(('%s: every azimuthal order once' % nm, not dups(c.hist)))
        return cs

    def assume(v):
        return [v['J'] >= 0, v['J'] <= Jmax, v['L'] >= 0, v['L'] <= Lmax, v['cov'] >= 0, v['cov'] <= 1, v['order'] >= 1, v['order'] <= 2]
    explore(r, key, body, ['J', 'L', 'cov', 'order'], assume, max_paths=100000, sample=[dict(J=2, L=3, cov=1, order=2)])


QUICK = [dict(J=1, shape=(2, 2, 2), L=1), dict(J=1, shape=(3, 2, 2), L=0, max_order=1),
         dict(J=1, shape=(2, 3, 2), L=2, rotation_covariant=False), dict(J=2, shape=(2, 2, 3), L=1, integral_powers=(1., 2.)),
         dict(J=0, shape=(2, 2, 4), L=2, integral_powers=(0.5, 1., 3.))]
MORE = [dict(J=2, shape=(3, 3, 3), L=2), dict(J=1, shape=(4, 4, 4), L=1), dict(J=2, shape=(4, 2, 2), L=3),
        dict(J=2, shape=(2, 4, 3), L=2, rotation_covariant=False), dict(J=3, shape=(2, 2, 2), L=1)]


def jobs(tier):
    out = []
    for b in ('numpy', 'torch', 'tensorflow', 'jax'):
        for i, cfg in enumerate(QUICK + (MORE if tier != 'quick' else MORE[:2] if b == 'numpy' else [])):
            out.append(job('checks.c18', 'cascade', 10, b, backend=b, cfg=cfg, limit=1200, batch=(2,) if i == 0 else (1,)))
        out.append(job('checks.c18', 'refuse', 4, b, backend=b))
    for b in ('numpy', 'torch', 'tensorflow', 'jax'):
        for s, qs in (((2, 40, 1, 3), (0.5, 1., 2.)), ((1, 2, 48, 1), (1., 3., 0.5)), ((1, 1, 2, 70), (2., 0.5, 1.))) + (
                () if tier == 'quick' else (((1, 130, 2, 2), (0.5, 1., 2., 4.)), ((3, 8, 8, 8), (0.5, 2., 1.)), ((1, 2, 130, 3), (1., 0.5, 2.)), ((1, 3, 2, 130), (1., 0.5, 2.)))):
            out.append(job('checks.prims', 'integrals', 4, b, backend=b, shape=s, powers=qs))
    for b in ('numpy', 'torch', 'tensorflow', 'jax'):
        for sh, qs in (((1, 2, 1, 2), (0.125, 0.25, 0.75, 1.5, 2.5, 3.5)), ((1, 1, 2, 2), (4., 5., 6., 7., 8.)), ((1, 2, 1, 1), (9., 10., 12., 16.))):
            out.append(job('checks.prims', 'integrals', 3, b, backend=b, shape=sh, powers=qs))
    out.append(job('checks.c18', 'book', 10, Jmax=6 if tier == "quick" else 10, Lmax=9 if tier == "quick" else 12, limit=1500))
    for cfg in QUICK if tier == 'quick' else QUICK + MORE[:3]:
        out.append(job('checks.c18', 'cascade', 12, 'numpy', backend='numpy', cfg=cfg, symf=True, limit=1200))
    return out
