"""Independent definitions of the scattering cascades and helpers to put arbitrary filter values into the real objects.

The definitions work on float arrays and on symbolic arrays alike.
"""
import warnings
import numpy as np
from .common import *
from vk import poly as P_

warnings.filterwarnings('ignore')
FRONT = {'numpy': 'kymatio.numpy', 'torch': 'kymatio.torch', 'tensorflow': 'kymatio.tensorflow', 'jax': 'kymatio.jax'}


# ---------------------------------------------------------------- small calculus
def fft(x, nd=1, inverse=False):
    ax = tuple(range(-nd, 0))
    if is_sym(x):
        o = P_.fft_axes(obj(x), [x.ndim + a for a in ax], inverse)
        return SymArray(o, np.dtype('complex128'))
    return np.fft.ifftn(x, axes=ax) if inverse else np.fft.fftn(x, axes=ax)


def real(x):
    return x.real


def mod(x):
    if is_sym(x):
        return SymArray(symarr._map(lambda v: (lift(v).real * lift(v).real + lift(v).imag * lift(v).imag).sqrt(), obj(x)))
    return np.sqrt(x.real ** 2 + x.imag ** 2)


def stack(xs, axis):
    if any(is_sym(x) for x in xs):
        return SymArray(np.stack([obj(x) for x in xs], axis=axis), np.dtype('float64'))
    return np.stack(xs, axis=axis)


def alias(X, ks):
    """spectrum of the decimated signal: average of the aliased blocks, along the last len(ks) axes"""
    nd = len(ks)
    if all(k == 1 for k in ks):
        return X
    acc = None
    n = [X.shape[X.ndim - nd + i] // k for i, k in enumerate(ks)]
    for q in np.ndindex(*ks):
        t = X[(Ellipsis,) + tuple(slice(a * m, (a + 1) * m) for a, m in zip(q, n))]
        acc = t if acc is None else acc + t
    return acc / int(np.prod(ks))


def mirror_idx(N, l, r):
    out = []
    for i in range(-l, N + r):
        p = 2 * (N - 1)
        k = i % p if p else 0
        out.append(k if k < N else p - k)
    return out


# ---------------------------------------------------------------- filters of the real objects
def level_slots(banks):
    """[(filter index in flat order, level index)] and the list holding each of them"""
    out = []
    for f in banks:
        for l in range(len(f['levels'])):
            out.append((f['levels'], l))
    return out


def banks1d(S):
    b = [S.phi_f] + list(S.psi1_f) + list(S.psi2_f)
    if hasattr(S, 'filters_fr'):
        b += [S.filters_fr[0]] + list(S.filters_fr[1])
    return b


def banks2d(S):
    return [S.phi] + list(S.psi)


class Filters:
    """gives access to the filter values used by a real transform object

    names/tensors of torch buffers are matched by identity or by value, not by naming convention"""

    def __init__(self, S, backend, banks):
        self.S, self.backend = S, backend
        self.slots = level_slots(banks)
        self.bufs = None
        if backend == 'torch':
            self.bufs = []
            bufs = dict(S.named_buffers())
            used = set()
            for lst, l in self.slots:
                t = lst[l]
                nm = [k for k, v in bufs.items() if v is t and k not in used]
                if not nm:
                    nm = [k for k, v in bufs.items() if k not in used and v.numel() == np.asarray(t).size
                          and np.allclose(v.detach().numpy().reshape(-1), np.asarray(t).reshape(-1))]
                if not nm:
                    raise RuntimeError('a filter is not in the module state')
                used.add(nm[0])
                self.bufs.append(nm[0])
            self.bshape = [tuple(bufs[k].shape) for k in self.bufs]
            S.double()

    def shape(self, i):
        lst, l = self.slots[i]
        s = np.asarray(lst[l]).shape
        if self.bufs is not None:
            s = self.bshape[i]
            s = s[:-1] if s[-1] == 1 else s
        return tuple(s)

    def get(self, i):
        lst, l = self.slots[i]
        v = getattr(self.S, self.bufs[i]) if self.bufs is not None else lst[l]
        v = np.asarray(v.detach() if hasattr(v, 'detach') else v, dtype=np.float64)
        return v.reshape(self.shape(i))

    def put(self, vals):
        for i, v in enumerate(vals):
            self.put1(i, v)

    def put1(self, i, v):
        lst, l = self.slots[i]
        if self.bufs is not None:
            import torch
            b = getattr(self.S, self.bufs[i])
            b.copy_(torch.from_numpy(np.asarray(v, dtype=np.float64).reshape(self.bshape[i])))
        elif isinstance(lst[l], np.ndarray) and isinstance(v, np.ndarray) and not is_sym(v) and lst[l].flags.writeable:
            lst[l][...] = v
        else:
            lst[l] = v

    def put_symbolic(self, vals):
        """install (possibly traced or symbolic) native arrays"""
        for i, v in enumerate(vals):
            lst, l = self.slots[i]
            if self.bufs is not None:
                setattr(self.S, self.bufs[i], v.reshape(self.bshape[i]))
            else:
                lst[l] = v

    def randomise(self, seed=3):
        vals = []
        for i in range(len(self.slots)):
            v = generic(self.shape(i), seed * 1000 + i)
            self.put1(i, v)
            vals.append(v)
        return vals


def split(banks, vals):
    """flat level values -> per filter lists"""
    out, k = [], 0
    for f in banks:
        n = len(f['levels'])
        out.append(list(vals[k:k + n]))
        k += n
    return out


# ---------------------------------------------------------------- 1D
def make1d(backend, cls='Scattering1D', **cfg):
    cl = getattr(shim.load(FRONT[backend]), cls)
    try:
        return cl(**cfg)
    except Exception as e:
        from vk.core import PublicFailure
        raise PublicFailure('%s %s(%s) can be constructed' % (backend, cls, ', '.join(
            '%s=%s' % kv for kv in sorted(cfg.items()))), '%s: %s' % (type(e).__name__, str(e)[:300]), dict(
                backend=backend, cls=cls, cfg={k: repr(v) for k, v in cfg.items()}))


def public(key, f, **info):
    """a call of a public function that must not fail"""
    try:
        return f()
    except Exception as e:
        from vk.core import PublicFailure
        raise PublicFailure(key, '%s: %s' % (type(e).__name__, str(e)[:300]), {k: repr(v) for k, v in info.items()})


def lgi(x):
    """log2 of an exact power of two"""
    k = int(x).bit_length() - 1
    assert 2 ** k == x
    return k


def ceil_div(a, b):
    return -((-a) // b)


class Cfg1D:
    """everything the 1D definition needs, taken from constructor arguments and from the filter descriptions"""

    def __init__(self, S, cfg):
        self.N = int(cfg['shape'] if not isinstance(cfg['shape'], tuple) else cfg['shape'][0])
        self.J = cfg['J']
        T = cfg.get('T')
        self.average = 'global' if T == 'global' else ('local' if (T is None or T != 0) else False)
        self.T = 2 ** self.J if (T is None or T == 'global' or T == 0) else T
        self.log2_T = int(np.floor(np.log2(self.T)))
        st = cfg.get('stride')
        self.log2_stride = lgi(st) if st is not None else self.log2_T
        if cfg.get('oversampling'):
            self.log2_stride = self.log2_T - cfg['oversampling']
        self.max_order = cfg.get('max_order', 2)
        self.pad_left, self.pad_right = S.pad_left, S.pad_right
        self.j1 = [int(f['j']) for f in S.psi1_f]
        self.j2 = [int(f['j']) for f in S.psi2_f]
        self.nlev = [len(f['levels']) for f in banks1d(S)]

    def levels(self, vals):
        out, k = [], 0
        for n in self.nlev:
            out.append(list(vals[k:k + n]))
            k += n
        a = 1 + len(self.j1)
        return out[0], out[1:a], out[a:a + len(self.j2)], out[a + len(self.j2):]


def crop(x, c, res):
    i0 = ceil_div(c.pad_left, 2 ** res)
    i1 = ceil_div(c.pad_left + c.N, 2 ** res)
    return x[..., i0:i1]


def scat1d(x, c, vals):
    """{n: (coef, j)}: the documented cascade"""
    phi, psi1, psi2, _ = c.levels(vals)
    U0 = x[..., mirror_idx(c.N, c.pad_left, c.pad_right)]
    loc, ls = c.average == 'local', c.log2_stride
    out = {}

    def fin(y, res):
        if c.average == 'global':
            return y.sum(axis=-1, keepdims=True)
        return crop(y, c, res)
    X0 = fft(U0)
    if loc:
        out[()] = (fin(real(fft(alias(X0 * phi[0], (2 ** ls,)), 1, True)), ls), ())
    else:
        out[()] = (fin(U0, 0), ())
    if c.max_order < 1:
        return out
    for n1, j1 in enumerate(c.j1):
        k1 = min(j1, ls) if loc else j1
        U1 = mod(fft(alias(X0 * psi1[n1][0], (2 ** k1,)), 1, True))
        X1 = fft(U1) if (loc or c.max_order > 1) else None
        if loc:
            out[(n1,)] = (fin(real(fft(alias(X1 * phi[k1], (2 ** (ls - k1),)), 1, True)), ls), (j1,))
        else:
            out[(n1,)] = (fin(U1, j1), (j1,))
        if c.max_order < 2:
            continue
        for n2, j2 in enumerate(c.j2):
            if j2 <= j1:
                continue
            r2 = min(j2, ls) if loc else j2          # resolution after the second modulus
            U2 = mod(fft(alias(X1 * psi2[n2][k1], (2 ** (r2 - k1),)), 1, True))
            if loc:
                X2 = fft(U2)
                out[(n1, n2)] = (fin(real(fft(alias(X2 * phi[r2], (2 ** (ls - r2),)), 1, True)), ls), (j1, j2))
            else:
                out[(n1, n2)] = (fin(U2, j2), (j1, j2))
    return out


def order_of(keys):
    return sorted(keys, key=lambda n: (len(n), n))


def out1d(res, out_type):
    ks = order_of(res)
    if out_type == 'list':
        return [dict(n=k, j=res[k][1], order=len(k), coef=res[k][0]) for k in ks]
    if out_type == 'dict':
        return {k: res[k][0] for k in ks}
    return stack([res[k][0] for k in ks], axis=-2)


def norm1d(o, out_type):
    """implementation output, reduced to the documented fields"""
    if out_type == 'list':
        return [dict(n=tuple(int(t) for t in p['n']), j=tuple(int(t) for t in p['j']), order=int(p['order']),
                     coef=p['coef']) for p in o]
    if out_type == 'dict':
        return {k: o[k] for k in order_of(o)}
    return o


# ---------------------------------------------------------------- 2D
def make2d(backend, **cfg):
    return make1d(backend, 'Scattering2D', **cfg)


def padded2d(M, J):
    return ((M + 2 ** J) // 2 ** J + 1) * 2 ** J


def mirror2d(x, shape, J):
    for ax, M in ((-2, shape[0]), (-1, shape[1])):
        P = padded2d(M, J)
        idx = mirror_idx(M, (P - M) // 2, (P - M + 1) // 2)
        x = x[..., idx, :] if ax == -2 else x[..., idx]
    return x


class Cfg2D:
    def __init__(self, S, cfg):
        self.shape, self.J, self.L = tuple(cfg['shape']), cfg['J'], cfg.get('L', 8)
        self.max_order = cfg.get('max_order', 2)
        self.pre_pad = cfg.get('pre_pad', False)
        self.j = [int(f['j']) for f in S.psi]
        self.theta = [int(f['theta']) for f in S.psi]
        self.nlev = [len(f['levels']) for f in banks2d(S)]

    def levels(self, vals):
        out, k = [], 0
        for n in self.nlev:
            out.append(list(vals[k:k + n]))
            k += n
        return out[0], out[1:]


def scat2d(x, c, vals):
    """[(n, j, theta, coef)]"""
    phi, psi = c.levels(vals)
    J = c.J
    U0 = x if c.pre_pad else mirror2d(x, c.shape, J)
    X0 = fft(U0, 2)

    def low(X, res):
        return real(fft(alias(X * phi[res], (2 ** (J - res),) * 2), 2, True))[..., 1:-1, 1:-1]

    def wav(X, n, res, to):
        return mod(fft(alias(X * psi[n][res], (2 ** (to - res),) * 2), 2, True))
    o1, o2 = [], []
    for n1, j1 in enumerate(c.j):
        X1 = fft(wav(X0, n1, 0, j1), 2)
        o1.append(((n1,), (j1,), (c.theta[n1],), low(X1, j1)))
        if c.max_order < 2:
            continue
        for n2, j2 in enumerate(c.j):
            if j2 > j1:
                X2 = fft(wav(X1, n2, j1, j2), 2)
                o2.append(((n1, n2), (j1, j2), (c.theta[n1], c.theta[n2]), low(X2, j2)))
    return [((), (), (), low(X0, 0))] + o1 + o2


def out2d(res, out_type):
    if out_type == 'list':
        return [dict(n=n, j=j, theta=t, coef=y) for n, j, t, y in res]
    return stack([y for *_, y in res], axis=-3)


def norm2d(o, out_type):
    if out_type == 'list':
        return [dict(n=tuple(int(t) for t in p['n']), j=tuple(int(t) for t in p['j']),
                     theta=tuple(int(t) for t in p['theta']), coef=p['coef']) for p in o]
    return o


# ---------------------------------------------------------------- 3D
def make3d(backend, **cfg):
    return make1d(backend, 'HarmonicScattering3D', **cfg)


def filters3d(S):
    """complex filter values [l][j][m], as NumPy arrays"""
    out = []
    for f in S.filters:
        f = np.asarray(f.detach() if hasattr(f, 'detach') else f)
        if f.dtype.kind != 'c':
            f = f[..., 0] + 1j * f[..., 1]
        out.append(f)
    return out


def put3d(S, backend, vals):
    """install complex filter values [l] of shape (J+1, 2l+1, M, N, O)"""
    if backend == 'torch':
        import torch
        bufs = dict(S.named_buffers())
        for k, v in enumerate(vals):
            t = S.filters[k]
            nm = [n for n, b in bufs.items() if b is t] or ['tensor%d' % k]
            w = torch.from_numpy(np.stack([v.real, v.imag], -1))
            getattr(S, nm[0]).copy_(w)
        S.double()
    else:
        for k, v in enumerate(vals):
            if isinstance(S.filters[k], np.ndarray) and S.filters[k].flags.writeable:
                S.filters[k][...] = v
            else:
                S.filters[k] = v


def powq(x, q):
    """x**q for a non-negative quantity, q a multiple of one half"""
    if is_sym(x):
        def f(v):
            v = lift(v)
            if float(q) == 0.5:
                return v.sqrt()
            if float(q) == int(q):
                return v ** int(q)
            return v ** q
        return SymArray(symarr._map(f, obj(x)))
    return x ** q


def sumaxes(x, axes):
    if is_sym(x):
        o = obj(x)
        o = o.reshape(o.shape[:o.ndim - axes] + (-1,))
        out = np.empty(o.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            a = lift(0)
            for v in o[i]:
                a = a + v
            out[i] = a
        return SymArray(out)
    return x.reshape(x.shape[:x.ndim - axes] + (-1,)).sum(-1)


def msqrt_sum(zs):
    """sqrt(sum |z|^2)"""
    if is_sym(zs[0]):
        acc = None
        for z in zs:
            p = symarr._map(lambda v: lift(v).real * lift(v).real + lift(v).imag * lift(v).imag, obj(z))
            acc = p if acc is None else acc + p
        return SymArray(symarr._map(lambda v: lift(v).sqrt(), acc))
    return np.sqrt(sum(z.real ** 2 + z.imag ** 2 for z in zs))


def scat3d(x, cfg, filt):
    """(batch..., path, l, power)"""
    J, L, mo = cfg['J'], cfg.get('L', 3), cfg.get('max_order', 2)
    rc = cfg.get('rotation_covariant', True)
    qs = cfg.get('integral_powers', (0.5, 1., 2.))
    X0 = fft(x, 3)

    def u(X, l, j):
        ms = range(2 * l + 1) if rc else range(1)
        return msqrt_sum([fft(X * filt[l][j][m], 3, True) for m in ms])

    def integ(U):
        return stack([sumaxes(powq(U, q), 3) for q in qs], axis=-1)
    per_l = []
    for l in range(L + 1):
        a, b = [], []
        for j1 in range(J + 1):
            U1 = u(X0, l, j1)
            a.append(integ(U1))
            if mo > 1:
                X1 = fft(U1, 3)
                for j2 in range(j1 + 1, J + 1):
                    b.append(integ(u(X1, l, j2)))
        per_l.append(stack(a + b, axis=-2))
    return stack(per_l, axis=-2)


# ---------------------------------------------------------------- joint time-frequency
def makej(backend, **cfg):
    return make1d(backend, 'TimeFrequencyScattering', **cfg)


class CfgJ(Cfg1D):
    def __init__(self, S, cfg):
        super().__init__(S, cfg)
        F = cfg.get('F')
        self.J_fr = cfg['J_fr']
        self.average_fr = 'global' if F == 'global' else ('local' if (F is None or F != 0) else False)
        self.F = 2 ** self.J_fr if (F is None or F == 'global' or F == 0) else F
        self.log2_F = int(np.floor(np.log2(self.F)))
        sf = cfg.get('stride_fr')
        self.log2_stride_fr = lgi(sf) if sf is not None else self.log2_F
        self.jfr = [int(f['j']) for f in S.filters_fr[1]]
        self.spin = [int(np.sign(f['xi'])) for f in S.filters_fr[1]]
        self.format = cfg.get('format', 'time')
        self.out_type = cfg.get('out_type', 'array')


def swap(x):
    return np.swapaxes(x, -1, -2)


def padrows(x, total):
    """zero rows appended along the log-frequency axis (second to last)"""
    p = total - x.shape[-2]
    assert p >= 0
    z = np.zeros(x.shape[:-2] + (p, x.shape[-1]))
    if is_sym(x):
        return SymArray(np.concatenate([obj(x), symarr._map(lift, z.astype(object))], axis=-2), np.dtype('complex128'))
    return np.concatenate([x, z], axis=-2)


def jtfs(x, c, vals):
    """[(n, order, n_fr, spin, coef)] in the order of generation: zeroth order, first order by n_fr, second order by
    (n2, n_fr); coef is (..., time) for zeroth order and for format 'time', (..., frequency, time) for 'joint'"""
    phi, psi1, psi2, fr = c.levels(vals)
    phi_fr, psi_fr = fr[0], fr[1:]
    loc, ls, lf = c.average == 'local', c.log2_stride, c.log2_stride_fr
    locf = c.average_fr == 'local'
    N_fr = phi_fr[0].shape[0]
    U0 = x[..., mirror_idx(c.N, c.pad_left, c.pad_right)]
    X0 = fft(U0)
    out = []

    def tsum(y):
        return y.sum(axis=-1, keepdims=True)
    if loc:
        y = crop(real(fft(alias(X0 * phi[0], (2 ** ls,)), 1, True)), c, ls)
    elif c.average == 'global':
        y = tsum(U0)
    else:
        y = crop(U0, c, 0)
    out.append(((), 0, None, None, y))
    # scalogram and its time average
    k1s, X1s, S1 = [], [], []
    for n1, j1 in enumerate(c.j1):
        k1 = min(j1, ls) if loc else j1
        X1 = fft(mod(fft(alias(X0 * psi1[n1][0], (2 ** k1,)), 1, True)))
        k1s.append(k1)
        X1s.append(X1)
        S1.append(real(fft(alias(X1 * phi[k1], (2 ** (ls - k1),)), 1, True)))

    def frequency(M, n_fr, k_fr):
        Mh = fft(swap(padrows(M, N_fr)))
        return swap(fft(alias(Mh * psi_fr[n_fr][0], (2 ** k_fr,)), 1, True))

    def rest(Y, n_fr, k_fr, n1_max, n, order, res):
        """modulus, time and frequency averaging, restriction to the original extents"""
        Y = mod(Y)
        if c.average == 'global':
            Y = tsum(Y)
        elif c.average == 'local' and order == 2:
            Y = real(fft(alias(fft(Y) * phi[res], (2 ** (ls - res),)), 1, True))
            res = ls
        n1_stride = 2 ** k_fr
        if c.average_fr == 'global':
            Y = Y.sum(axis=-2, keepdims=True)
            n1_stride = n1_max
        elif locf and not (c.spin[n_fr] == 0 and c.log2_F <= c.jfr[n_fr]):
            Yh = fft(swap(Y)) * phi_fr[k_fr]
            Y = swap(real(fft(alias(Yh, (2 ** (lf - k_fr),)), 1, True)))
            n1_stride = 2 ** lf
        if c.average != 'global':
            Y = crop(Y, c, res)
        if not (c.out_type == 'array' and c.format == 'joint'):
            Y = Y[..., :1 + n1_max // n1_stride, :]
        if c.format == 'joint':
            out.append((n, order, n_fr, c.spin[n_fr], Y))
        else:
            for i, n1 in enumerate(range(0, n1_max, n1_stride)):
                out.append(((n1,) + n, order, n_fr, c.spin[n_fr], Y[..., i, :]))
    kf = [min(j, lf) if locf else j for j in c.jfr]
    M = stack(S1, -2)
    pos = [n for n in range(len(c.jfr)) if c.spin[n] >= 0]
    for n_fr in pos:
        rest(frequency(M, n_fr, kf[n_fr]), n_fr, kf[n_fr], len(S1), (n_fr,), 1, ls)
    for n2, j2 in enumerate(c.j2):
        r2 = min(j2, ls) if loc else j2
        rows = [fft(alias(X1s[n1] * psi2[n2][k1s[n1]], (2 ** (r2 - k1s[n1]),)), 1, True)
                for n1, j1 in enumerate(c.j1) if j1 < j2]
        if not rows:
            continue
        M = cstack(rows, -2)
        for n_fr in range(len(c.jfr)):
            rest(frequency(M, n_fr, kf[n_fr]), n_fr, kf[n_fr], len(rows), (n2, n_fr), 2, r2)
    return out


def cstack(xs, axis):
    if any(is_sym(x) for x in xs):
        return SymArray(np.stack([obj(x) for x in xs], axis=axis), np.dtype('complex128'))
    return np.stack(xs, axis=axis)


def outj(res, c):
    if c.out_type == 'list':
        return [dict(n=n, order=o, n_fr=-1 if f is None else f, spin=0 if s is None else s, coef=y)
                for n, o, f, s, y in res]
    if c.out_type == 'dict':
        return {n: y for n, o, f, s, y in res}
    if c.format == 'joint':
        return stack([y for *_, y in res[1:]], -3)
    return stack([y for *_, y in res], -2)


def normj(o, c):
    if c.out_type == 'list':
        return [dict(n=tuple(int(t) for t in p['n']), order=int(p['order']),
                     n_fr=int(p['n_fr'][0]) if 'n_fr' in p else -1, spin=int(p.get('spin', 0)), coef=p['coef']) for p in o]
    return o
