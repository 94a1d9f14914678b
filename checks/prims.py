"""C02-C05: per-backend primitives."""
import numpy as np
from .common import *
from vk.drv import ImplError


def tpost(lv):
    """torch pad output has a trailing singleton axis"""
    return [x[..., 0] if x.shape[-1] == 1 else x for x in lv]


def mirror(x, l, r):
    """whole-sample mirror reflection on the last axis, by index arithmetic"""
    N = x.shape[-1]
    idx = []
    for i in range(-l, N + r):
        p = 2 * (N - 1)
        k = i % p if p else 0
        idx.append(k if k < N else p - k)
    return x[..., idx]


# ---- C02 ---------------------------------------------------------------
def pad1d(r, backend, N, batch=(2,), some=False):
    B = backend_class('1d', backend)
    r.bound('signal length N=%d, %s pad amounts 0..N+1 on each side' % (N, 'boundary' if some else 'all'))
    post = tpost if backend == 'torch' else None
    bs = tuple(batch) + (1,)
    for l in range(0, N + 2):
        for q in range(0, N + 2):
            if some and (l, q) not in ((N - 1, N - 1), (N - 1, 0), (0, N - 1), (N // 2, N // 2 + 1), (N, 3), (2, N), (1, 1), (0, 0)):
                continue
            key = 'pad %s N=%d left=%d right=%d' % (backend, N, l, q)
            refuse = l >= N or q >= N
            check_equal(r, key, lambda x: B.pad(x, pad_left=l, pad_right=q), lambda x: mirror(x, l, q),
                        [In('x', bs + (N,))], backend, kym=False, post=post,
                        expect_error=ValueError if refuse else None)
            if not refuse and (l + q) % 2 == 0:
                check_equal(r, 'unpad(pad) %s N=%d left=%d right=%d' % (backend, N, l, q),
                            lambda x: B.unpad(B.pad(x, pad_left=l, pad_right=q), l, l + N), lambda x: x,
                            [In('x', bs + (N,))], backend, kym=False)


def unpad1d(r, backend, N):
    B = backend_class('1d', backend)
    r.bound('crop of length-%d signals at every pair of indices' % N)
    big = N > 12
    for a in range(0, N + 1) if not big else (0, 1, N // 3, N // 2):
        for b in range(a, N + 1) if not big else (N // 2, N - 1, N):
            tk = backend == 'torch'      # torch signals carry a trailing singleton axis, removed by unpad
            check_equal(r, 'unpad %s N=%d %d:%d' % (backend, N, a, b), lambda x: B.unpad(x, a, b),
                        lambda x: (x[..., 0] if tk else x)[..., a:b],
                        [In('x', (2, 1, N, 1) if tk else (2, 1, N))], backend, kym=False)


def freqaxis(r, backend, F, T):
    B = backend_class('1d', backend)
    r.bound('frequency axis: %d bands x %d samples' % (F, T))
    for cplx in (False, True):
        for p in (0, 1, 2, 5):
            def spec(x):
                z = np.zeros(x.shape[:-1] + (p,), dtype=x.dtype)
                return np.concatenate([x, z], axis=-1) if not is_sym(x) else SymArray(
                    np.concatenate([obj(x), symarr._map(lift, np.zeros(x.shape[:-1] + (p,), dtype=object))], axis=-1),
                    x.dtype)
            check_equal(r, 'pad_frequency %s F=%d p=%d cplx=%s' % (backend, F, p, cplx),
                        lambda x: B.pad_frequency(x, p), spec, [In('x', (1, T, F), cplx)], backend)
        check_equal(r, 'swap_time_frequency %s cplx=%s' % (backend, cplx), lambda x: B.swap_time_frequency(x),
                    lambda x: np.moveaxis(x, -1, -2), [In('x', (2, F, T), cplx)], backend)
        check_equal(r, 'swap twice %s cplx=%s' % (backend, cplx),
                    lambda x: B.swap_time_frequency(B.swap_time_frequency(x)), lambda x: x,
                    [In('x', (1, F, T), cplx)], backend)
    for n1max in range(0, F):
        for stride in (1, 2, 4):
            check_equal(r, 'unpad_frequency %s F=%d n1_max=%d stride=%d' % (backend, F, n1max, stride),
                        lambda x: B.unpad_frequency(x, n1max, stride), lambda x: x[..., :1 + n1max // stride, :],
                        [In('x', (2, 1, F, T))], backend)
    check_equal(r, 'split_frequency_axis %s F=%d' % (backend, F), lambda x: list(B.split_frequency_axis(x)),
                lambda x: [x[..., k:k + 1, :] for k in range(F)], [In('x', (2, 1, F, T))], backend)


# ---- C03 ---------------------------------------------------------------
def sub1d(r, backend, N, lead=(2, 1)):
    B = backend_class('1d', backend)
    r.bound('1D spectra of length %d, all divisors as factors' % N)
    for k in [k for k in range(1, N + 1) if N % k == 0]:
        check_equal(r, 'decimation 1D %s N=%d k=%d' % (backend, N, k), lambda X: B.ifft(B.subsample_fourier(X, k)),
                    lambda X: dft(X, (-1,), True)[..., ::k], [In('X', tuple(lead) + (N,), True)], backend,
                    exact=True, n=unity(N))
        check_equal(r, 'periodisation 1D %s N=%d k=%d' % (backend, N, k), lambda X: B.subsample_fourier(X, k),
                    lambda X: alias_mean(X, (k,)), [In('X', tuple(lead) + (N,), True)], backend)
    check_equal(r, 'subsample_fourier 1D %s refuses real input' % backend, lambda X: B.subsample_fourier(X, 1), None,
                [In('X', tuple(lead) + (N,), False)], backend, expect_error=TypeError)


def alias_mean(X, ks):
    nd = len(ks)
    acc = None
    n = [X.shape[X.ndim - nd + i] // k for i, k in enumerate(ks)]
    for q in np.ndindex(*ks):
        sl = tuple(slice(a * m, (a + 1) * m) for a, m in zip(q, n))
        t = X[(Ellipsis,) + sl]
        acc = t if acc is None else acc + t
    return acc / int(np.prod(ks))


def sub2d(r, backend, M, N, B_=1, exact=True):
    B = backend_class('2d', backend)
    r.bound('2D spectra %dx%d, all common divisors as factors' % (M, N))
    for k in [k for k in range(1, min(M, N) + 1) if M % k == 0 and N % k == 0]:
        if exact:
            check_equal(r, 'decimation 2D %s %dx%d k=%d' % (backend, M, N, k),
                        lambda X: B.ifft(B.subsample_fourier(X, k)),
                        lambda X: dft(X, (-2, -1), True)[..., ::k, ::k], [In('X', (B_, M, N), True)], backend,
                        exact=True, n=unity(M, N))
        check_equal(r, 'periodisation 2D %s %dx%d k=%d' % (backend, M, N, k), lambda X: B.subsample_fourier(X, k),
                    lambda X: alias_mean(X, (k, k)), [In('X', (2, M, N), True)], backend)
    check_equal(r, 'subsample_fourier 2D %s refuses real input' % backend, lambda X: B.subsample_fourier(X, 1), None,
                [In('X', (B_, M, N), False)], backend, expect_error=TypeError)


# ---- C04 ---------------------------------------------------------------
def fftp(r, backend, dim, shape, lead):
    B = backend_class(dim, backend)
    nd = len(shape)
    ax = tuple(range(-nd, 0))
    full = tuple(lead) + tuple(shape)
    r.bound('%s transforms of %s with leading axes %s' % (dim, 'x'.join(map(str, shape)), tuple(lead)))
    n = unity(*shape)
    nm = '%s %s %s lead %s' % (dim, backend, 'x'.join(map(str, shape)), tuple(lead))
    kw = dict(exact=True, n=n)
    check_equal(r, 'rfft ' + nm, lambda x: B.rfft(x), lambda x: dft(x, ax), [In('x', full)], backend, **kw)
    check_equal(r, 'ifft ' + nm, lambda x: B.ifft(x), lambda x: dft(x, ax, True), [In('x', full, True)], backend, **kw)
    check_equal(r, 'ifft(rfft) ' + nm, lambda x: B.ifft(B.rfft(x)), lambda x: x + 0j if not is_sym(x) else x, [In('x', full)],
                backend, **kw)
    if hasattr(B, 'irfft'):
        check_equal(r, 'irfft ' + nm, lambda x: B.irfft(x), lambda x: dft(x, ax, True).real, [In('x', full, True)],
                    backend, **kw)
        check_equal(r, 'irfft(rfft) ' + nm, lambda x: B.irfft(B.rfft(x)), lambda x: x, [In('x', full)], backend, **kw)
        check_equal(r, 'irfft refuses real ' + nm, lambda x: B.irfft(x), None, [In('x', full)], backend,
                    expect_error=TypeError)
    if hasattr(B, 'cfft'):
        check_equal(r, 'cfft ' + nm, lambda x: B.cfft(x), lambda x: dft(x, ax), [In('x', full, True)], backend, **kw)
        check_equal(r, 'ifft(cfft) ' + nm, lambda x: B.ifft(B.cfft(x)), lambda x: x, [In('x', full, True)], backend, **kw)
        check_equal(r, 'cfft(ifft) ' + nm, lambda x: B.cfft(B.ifft(x)), lambda x: x, [In('x', full, True)], backend, **kw)
        check_equal(r, 'cfft refuses real ' + nm, lambda x: B.cfft(x), None, [In('x', full)], backend,
                    expect_error=TypeError)
    check_equal(r, 'rfft refuses complex ' + nm, lambda x: B.rfft(x), None, [In('x', full, True)], backend,
                expect_error=TypeError)
    check_equal(r, 'ifft refuses real ' + nm, lambda x: B.ifft(x), None, [In('x', full)], backend,
                expect_error=TypeError)


# ---- C05 ---------------------------------------------------------------
def cdgmm(r, backend, dim, shape, lead):
    B = backend_class(dim, backend)
    d = D.get(backend)
    full = tuple(lead) + tuple(shape)
    r.bound('%s products of %s by %s' % (dim, full, tuple(shape)))
    nm = '%s %s %s lead %s' % (dim, backend, 'x'.join(map(str, shape)), tuple(lead))
    fns = ['cdgmm'] if dim != '3d' else ['cdgmm', 'cdgmm3d']
    for f in fns:
        for cp in (False, True):
            if f == 'cdgmm3d' and backend == 'tensorflow':
                # the filter operand of the 3D TensorFlow product is a constant array
                for s in range(3):
                    F = generic(shape, 17 + s, cp).astype('complex64' if cp else 'float32')
                    check_equal(r, '%s cplx=%s const %d %s' % (f, cp, s, nm), lambda A: getattr(B, f)(A, F),
                                lambda A: A * F, [In('A', full, True)], backend)
                continue
            check_equal(r, '%s filter complex=%s %s' % (f, cp, nm), lambda A, F: getattr(B, f)(A, F),
                        lambda A, F: A * F, [In('A', full, True), In('F', shape, cp)], backend) if not (
                backend == 'tensorflow' and not cp) else check_equal(
                    # TensorFlow multiplies by a complex-typed filter; real filters are stored as complex
                    r, '%s filter real values %s' % (f, nm), lambda A, F: getattr(B, f)(A, d.tf.cast(F, d.tf.complex64)),
                    lambda A, F: A * F, [In('A', full, True), In('F', shape, False)], backend)
        if f == 'cdgmm3d' and backend == 'tensorflow':
            continue
        check_equal(r, '%s refuses a real spectrum %s' % (f, nm), lambda A, F: getattr(B, f)(A, F), None,
                    [In('A', full, False), In('F', shape, True)], backend, expect_error=(TypeError, RuntimeError))
        for i in range(len(shape)):
            bad = list(shape)
            bad[i] += 1
            check_equal(r, '%s refuses mismatch axis %d %s' % (f, i, nm), lambda A, F: getattr(B, f)(A, F), None,
                        [In('A', full, True), In('F', bad, True)], backend, expect_error=RuntimeError)
            if shape[i] > 1:
                one = list(shape)
                one[i] = 1
                check_equal(r, '%s refuses implicit broadcast axis %d %s' % (f, i, nm), lambda A, F: getattr(B, f)(A, F),
                            None, [In('A', full, True), In('F', one, True)], backend, expect_error=RuntimeError)


def modulus(r, backend, dim, shape):
    B = backend_class(dim, backend)
    nm = '%s %s %s' % (dim, backend, 'x'.join(map(str, shape)))
    r.bound('modulus of complex arrays of shape %s' % (tuple(shape),))

    def spec(z):
        if is_sym(z):
            return SymArray(symarr._map(lambda v: (lift(v).real * lift(v).real + lift(v).imag * lift(v).imag).sqrt(),
                                        obj(z)))
        return np.sqrt(z.real ** 2 + z.imag ** 2)
    check_equal(r, 'modulus ' + nm, lambda z: B.modulus(z), spec, [In('z', shape, True)], backend)
    if backend == 'torch':
        check_equal(r, 'modulus refuses real ' + nm, lambda z: B.modulus(z), None, [In('z', shape, False)], backend,
                    expect_error=TypeError)
    # positivity and definiteness on the encoding of the real code, by the solver
    poly.reset(4)
    d = D.get(backend)
    try:
        with r.encoding():
            z = equal.make_sym([In('z', shape, True)], d)
            sk, lv = d.sym(lambda z: B.modulus(z), z, True)
    except (Unsupported, ImplError) as e:
        r.inconclusive('modulus sign ' + nm, e)
        return
    conds = []
    for m, v in zip(lv[0].reshape(-1), obj(z[0]).reshape(-1)):
        m = lift(m)
        zero = (lift(v).real == 0) & (lift(v).imag == 0)
        conds.append(m >= 0)
        a, b = (m == 0), zero
        conds.append(((~a) | b) & (a | (~b)))
    st, env = prove.prove_all(conds)
    if st == 'proved':
        r.ok('modulus non-negative and zero only at zero ' + nm, len(conds))
    elif st == 'refuted':
        bad = []
        for s in range(4):
            vals, _ = equal.values([In('z', shape, True)], d, s, env if s == 0 else None)
            if s == 1:
                vals[0] = vals[0] * 0
            out = d.conc(lambda z: B.modulus(z), vals)[1][0]
            if (out < 0).any() or ((out == 0) != (vals[0] == 0)).any():
                bad.append(s)
        if bad:
            r.violation('modulus sign ' + nm, 'modulus negative or zero for a nonzero value', dict(env=env))
        else:
            r.inconclusive('modulus sign ' + nm, 'solver model not reproduced')
    else:
        r.inconclusive('modulus sign ' + nm, st)


def avg_global(r, backend, shape):
    B = backend_class('1d', backend)
    nm = '%s %s' % (backend, 'x'.join(map(str, shape)))
    r.bound('global average of shape %s' % (tuple(shape),))
    check_equal(r, 'average_global ' + nm, lambda x: B.average_global(x), lambda x: x.sum(axis=-1, keepdims=True),
                [In('x', shape)], backend)
    check_equal(r, 'average_global refuses complex ' + nm, lambda x: B.average_global(x), None,
                [In('x', shape, True)], backend, expect_error=TypeError)


def integrals(r, backend, shape, powers):
    """integrals of powers of a non-negative volume: every sample counts once (sizes far beyond those of the whole cascade)"""
    from .casc import powq, sumaxes, stack
    B = backend_class('3d', backend)
    nm = '%s %s powers %s' % (backend, 'x'.join(map(str, shape)), powers)
    r.bound('integral of powers %s of every volume of shape %s' % (powers, tuple(shape)))
    check_equal(r, 'compute_integrals ' + nm, lambda x: B.compute_integrals(x * x, powers),
                lambda x: stack([sumaxes(powq(x * x, q), 3) for q in powers], axis=-1), [In('x', shape)], backend, tol=3e-4)


def operands_kept(r, backend, dim, shape, lead):
    """no primitive writes into its operands: the operand after the call equals the operand before"""
    if backend not in ('numpy', 'torch'):
        return
    B = backend_class(dim, backend)
    full = tuple(lead) + tuple(shape)
    nm = '%s %s %s' % (dim, backend, 'x'.join(map(str, full)))
    d = D.get(backend)
    cases = [('cdgmm', lambda a, f: (B.cdgmm(a, f), a, f)[1:], [In('A', full, True), In('F', shape, True)]),
             ('cdgmm real', lambda a, f: (B.cdgmm(a, f), a, f)[1:], [In('A', full, True), In('F', shape, False)]),
             ('modulus', lambda a: (B.modulus(a), a)[1:], [In('A', full, True)]),
             ('rfft', lambda a: (B.rfft(a), a)[1:], [In('A', full, False)]),
             ('ifft', lambda a: (B.ifft(a), a)[1:], [In('A', full, True)])]
    if dim != '3d':
        cases += [('subsample_fourier', lambda a: (B.subsample_fourier(a, 1), a)[1:], [In('A', full, True)])]
    for name, f, ins in cases:
        check_equal(r, '%s keeps its operands %s' % (name, nm), f, lambda *a: tuple(a), ins, backend)
