"""Symbolic execution of PyTorch code: the real function is traced to its aten graph with make_fx and the
graph is interpreted on object arrays of polynomials (views are numpy views, so in-place updates alias)."""
import operator
import numpy as np
import torch
from torch.fx.experimental.proxy_tensor import make_fx
from . import poly
from .poly import Unsupported, lift, ite
from .symarr import _map, _bmap, _reduce, _and, _or

aten = torch.ops.aten


def trace(fn, *tensors):
    # freshly allocated memory is garbage: make_fx runs with real tensors but we only keep the graph
    return make_fx(fn)(*tensors)


class U:
    """uninitialised memory marker"""
    def __repr__(self): return 'undef'


def _undef(shape):
    # reading uninitialised memory must never matter: a fresh free variable per element
    o = np.empty(tuple(shape), dtype=object)
    _undef.n = getattr(_undef, 'n', 0) + 1
    for k, i in enumerate(np.ndindex(*o.shape)):
        o[i] = poly.var('undef%d_%d' % (_undef.n, k))
    return o


def _full(shape, v):
    o = np.empty(tuple(shape), dtype=object)
    o[...] = lift(v)
    return o


def const(t):
    t = t.detach()
    if t.dtype in (torch.bool,):
        a = t.numpy()
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            o[i] = bool(a[i])
        return o
    a = t.resolve_conj().numpy()
    return _map(lift, a.astype(object)) if a.ndim else _full((), a.item())


def _arr(x):
    if isinstance(x, np.ndarray):
        return x
    return _full((), x)


def _binop(f):
    def g(a, b, alpha=1):
        if not isinstance(b, np.ndarray) and not isinstance(a, np.ndarray):
            return f(a, b)
        a, b = _arr(a), _arr(b)
        if alpha != 1:
            b = _map(lambda z: lift(z) * alpha, b)
        return _bmap(lambda x, y: f(_num(x), _num(y)), a, b)
    return g


def _num(x):
    if isinstance(x, bool):
        return lift(int(x))
    if type(x).__name__ == 'SBool':
        return ite(x, lift(1), lift(0))
    return lift(x)


def _dims(d, nd):
    if d is None:
        return tuple(range(nd))
    if isinstance(d, (list, tuple)):
        if len(d) == 0:
            return tuple(range(nd))
        return tuple(x % nd for x in d)
    return (d % nd,)


def _sum(a, dim=None, keepdim=False, dtype=None):
    a = _map(_num, a)
    return _reduce('add', a, axis=_dims(dim, a.ndim), keepdims=keepdim) if a.ndim else a


def _mean(a, dim=None, keepdim=False, dtype=None):
    ax = _dims(dim, a.ndim)
    n = int(np.prod([a.shape[i] for i in ax]))
    return _map(lambda z: lift(z) / n, _sum(a, dim, keepdim))


def _slice(x, dim=0, start=None, end=None, step=1):
    sl = [slice(None)] * x.ndim
    n = x.shape[dim]
    s = 0 if start is None else start
    e = n if end is None else end
    if s < 0: s = max(s + n, 0)
    if e < 0: e = max(e + n, 0)
    sl[dim] = slice(s, min(e, n), step)
    return x[tuple(sl)]


def _select(x, dim, i):
    sl = [slice(None)] * x.ndim
    sl[dim] = slice(i, i + 1) if i != -1 else slice(-1, None)
    return np.squeeze(x[tuple(sl)], axis=dim)


def _pad_refl(x, pads):
    k = len(pads) // 2
    pw = [(0, 0)] * (x.ndim - k) + [(pads[2 * i], pads[2 * i + 1]) for i in reversed(range(k))]
    for (l, r), n in zip(pw, x.shape):
        if l >= n and l > 0 or r >= n and r > 0:
            raise RuntimeError('reflection pad too large')
    return np.pad(x, pw, mode='reflect')


def _pad_const(x, pads, value=0):
    k = len(pads) // 2
    pw = [(0, 0)] * (x.ndim - k) + [(pads[2 * i], pads[2 * i + 1]) for i in reversed(range(k))]
    out_shape = [n + l + r for (l, r), n in zip(pw, x.shape)]
    o = _full(out_shape, value)
    src, dst = [], []
    for (l, r), n in zip(pw, x.shape):
        dst.append(slice(max(l, 0), max(l, 0) + n + min(l, 0) + min(r, 0)))
        src.append(slice(max(-l, 0), n - max(-r, 0)))
    o[tuple(dst)] = x[tuple(src)]
    return o


def _pad_bwd(g, x, pads):
    """adjoint of reflection padding"""
    k = len(pads) // 2
    pw = [(0, 0)] * (x.ndim - k) + [(pads[2 * i], pads[2 * i + 1]) for i in reversed(range(k))]
    idx = np.pad(np.arange(x.size).reshape(x.shape), pw, mode='reflect')
    out = _full((x.size,), 0)
    for i in np.ndindex(*idx.shape):
        out[idx[i]] = out[idx[i]] + g[i]
    return out.reshape(x.shape)


def _to_cplx(x):
    if x.shape[-1] != 2:
        raise RuntimeError('view_as_complex')
    return _bmap(lambda a, b: lift(a) + lift(b).times_i(), x[..., 0], x[..., 1])


def _to_real(x):
    o = np.empty(x.shape + (2,), dtype=object)
    o[..., 0] = _map(lambda z: lift(z).real, x)
    o[..., 1] = _map(lambda z: lift(z).imag, x)
    return o


def _scale(r, n, norm):
    """r is the unnormalised sum; norm: 0 none, 1 1/sqrt(n), 2 1/n"""
    if norm == 0:
        return r
    q = lift(n) if norm == 2 else lift(n).sqrt()
    return _map(lambda z: lift(z) / q, r)


def _fft(x, dims, norm, forward):
    ax = _dims(dims, x.ndim)
    n = int(np.prod([x.shape[i] for i in ax]))
    r = poly.fft_axes(x, ax, not forward)          # our inverse is scaled by 1/n
    if forward:
        return _scale(r, n, norm)
    if norm == 2:
        return r
    return _scale(_map(lambda z: z * n, r), n, norm)


def _fft_r2c(x, dims, norm, onesided):
    ax = _dims(dims, x.ndim)
    r = _fft(_map(lambda z: _num(z).real, x), ax, norm, True)
    if onesided:
        sl = [slice(None)] * r.ndim
        sl[ax[-1]] = slice(0, x.shape[ax[-1]] // 2 + 1)
        r = r[tuple(sl)]
    return r


def _fft_c2r(x, dims, norm, last):
    from .symarr import _irfft1
    ax = _dims(dims, x.ndim)
    if len(ax) > 1:
        x = poly.fft_axes(x, ax[:-1], True)
    r = _irfft1(x, ax[-1], last)
    n = int(np.prod([r.shape[i] for i in ax]))
    if norm == 2:
        return r
    return _scale(_map(lambda z: z * n, r), n, norm)


def _pad_np(mode):
    def g(x, pads):
        k = len(pads) // 2
        pw = [(0, 0)] * (x.ndim - k) + [(pads[2 * i], pads[2 * i + 1]) for i in reversed(range(k))]
        return np.pad(x, pw, mode=mode)
    return g


def _ints(i):
    return np.vectorize(lambda z: int(lift(z).as_fraction()), otypes=[np.int64])(i) if i.size else i.astype(np.int64)


def _rearr(op):
    """an operation that only moves elements about: run on the element numbers"""
    def g(x, *a, **k):
        pos = torch.arange(x.size).reshape(x.shape)
        a = [torch.from_numpy(_ints(v)) if isinstance(v, np.ndarray) else v for v in a]
        r = op(pos, *a, **k).numpy()
        return x.reshape(-1)[r.reshape(-1)].reshape(r.shape)
    return g


def _prod(x, dim=None, keepdim=False, dtype=None):
    x = _map(_num, x)
    return _reduce('multiply', x, axis=_dims(dim, x.ndim), keepdims=keepdim)


def _mmn(a, b):
    return np.matmul(_map(_num, a), _map(_num, b))


def _dotp(a, b):
    return _full((), sum((_num(x) * _num(y) for x, y in zip(a, b)), lift(0)))


def _var(x, dim=None, correction=1, keepdim=False):
    d = _bmap(lambda a, b: lift(a) - lift(b), x, _mean(x, dim, True))
    n = int(np.prod([x.shape[i] for i in _dims(dim, x.ndim)]))
    c = 1 if correction is None else correction
    return _map(lambda z: z / (n - c), _sum(_map(lambda z: z * z.conjugate(), d), dim, keepdim))


def _index_copy(x, dim, idx, src):
    x = x.copy()
    sl = [slice(None)] * x.ndim
    for k, i in enumerate(_ints(idx)):
        sl[dim] = slice(int(i), int(i) + 1)
        x[tuple(sl)] = np.take(src, [k], axis=dim)
    return x


def _convnd(x, w, b, stride, padding, dilation, transposed, outpad, groups):
    if transposed:
        raise Unsupported('transposed convolution')
    k = x.ndim - 2
    x = np.pad(x, [(0, 0), (0, 0)] + [(p, p) for p in padding], mode='constant', constant_values=0)
    B, C = x.shape[:2]
    O, Cg = w.shape[:2]
    sp = [(n - d * (m - 1) - 1) // s + 1 for n, m, d, s in zip(x.shape[2:], w.shape[2:], dilation, stride)]
    out = np.empty([B, O] + sp, dtype=object)
    for i in np.ndindex(*out.shape):
        g = i[1] // (O // groups)
        acc = _num(b[i[1]]) if b is not None else lift(0)
        for c in range(Cg):
            for q in np.ndindex(*w.shape[2:]):
                pos = tuple(i[2 + t] * stride[t] + q[t] * dilation[t] for t in range(k))
                acc = acc + _num(x[(i[0], g * Cg + c) + pos]) * _num(w[(i[1], c) + q])
        out[i] = acc
    return out


def _avgpool(k):
    def g(x, ks, stride=(), pad=0, ceil=False, inc=True, div=None):
        L = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
        ks, stride, pad = L(ks), L(stride) or L(ks), L(pad)
        ks, stride, pad = [v * k if len(v) == 1 else v for v in (ks, stride, pad)]
        if any(pad) or ceil or div:
            raise Unsupported('avg_pool')
        sp = [(n - m) // s + 1 for n, m, s in zip(x.shape[-k:], ks, stride)]
        out = np.empty(list(x.shape[:-k]) + sp, dtype=object)
        for i in np.ndindex(*out.shape):
            j = i[-k:]
            blk = x[i[:-k] + tuple(slice(a * s, a * s + m) for a, s, m in zip(j, stride, ks))]
            out[i] = sum((_num(z) for z in blk.ravel()), lift(0)) / int(np.prod(ks))
        return out
    return g


def _inplace(f):
    def g(x, *a, **k):
        x[...] = f(x, *a, **k)
        return x
    return g


def _index_put(x, idx, v, accumulate=False):
    raise Unsupported('index_put')


def _view(x, shape):
    if not (x.flags.c_contiguous or x.size == np.prod(shape)):
        pass
    return x.reshape(tuple(shape))


def _copy_(dst, src, *a):
    dst[...] = src
    return dst


def _expand(x, shape, implicit=False):
    shape = list(shape)
    off = len(shape) - x.ndim
    for i in range(x.ndim):
        if shape[off + i] == -1:
            shape[off + i] = x.shape[i]
    return np.broadcast_to(x, shape)


def _split(x, n, dim=0):
    N = x.shape[dim]
    out = []
    for s in range(0, N, n):
        out.append(_slice(x, dim % x.ndim, s, min(s + n, N)))
    return out


def _split_sizes(x, sizes, dim=0):
    out, s = [], 0
    for n in sizes:
        out.append(_slice(x, dim % x.ndim, s, s + n))
        s += n
    return out


def _cmp(op):
    def g(a, b):
        return _bmap(lambda x, y: getattr(lift(x), op)(lift(y)), _arr(a), _arr(b))
    return g


def _masked_fill_(x, m, v):
    v = v[()] if isinstance(v, np.ndarray) else v
    x[...] = _bmap(lambda z, c: ite(c, lift(v), lift(z)), x, np.broadcast_to(m, x.shape))
    return x


def _as_strided(x, size, stride, off=0):
    # only the dense case
    st, dense = 1, []
    for n in reversed(size):
        dense.append(st)
        st *= n
    if list(reversed(dense)) != list(stride) or (off or 0) or x.size != int(np.prod(size)):
        if x.flags.c_contiguous and sum((n - 1) * s for n, s in zip(size, stride)) + (off or 0) < x.size:
            flat = x.reshape(-1)[(off or 0):]
            return np.lib.stride_tricks.as_strided(flat, tuple(size), tuple(s * x.itemsize for s in stride))
        raise Unsupported('as_strided %s -> %s %s %s' % (x.shape, size, stride, off))
    return x.reshape(tuple(size))


def _perm(x, dims):
    return np.transpose(x, [d % x.ndim for d in dims])


def _slice_bwd(g, sizes, dim, s, e, step):
    o = _full(sizes, 0)
    _slice(o, dim, s, e, step)[...] = g
    return o


def _select_bwd(g, sizes, dim, i):
    o = _full(sizes, 0)
    sl = [slice(None)] * o.ndim
    sl[dim] = i
    o[tuple(sl)] = g
    return o


def _cast(x, dtype=None, **k):
    if dtype is not None and dtype in (torch.int64, torch.int32, torch.int8, torch.uint8):
        raise Unsupported('integer cast')
    if dtype is not None and dtype is not torch.bool and not dtype.is_complex:
        return _map(lambda z: _num(z).real, x)
    return _map(_num, x) if dtype is not torch.bool else _map(lambda z: lift(z) != 0, x)


def _where(c, a, b):
    a, b = _arr(a), _arr(b)
    return _bmap(lambda cc, x, y: ite(cc, lift(x), lift(y)), c, a, b)


def _cat(ts, dim=0):
    ts = [t for t in ts if not (t.ndim == 1 and t.shape[0] == 0)]
    return np.concatenate(ts, axis=dim)


def _maxmin(f):
    def g(a, b):
        return _bmap(lambda x, y: ite(f(lift(x), lift(y)), lift(x), lift(y)), _arr(a), _arr(b))
    return g


def _pow(a, b):
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b[()]
    if isinstance(b, np.ndarray):
        return _bmap(lambda x, y: lift(x) ** lift(y), _arr(a), b)
    return _map(lambda z: lift(z) ** lift(b), _arr(a))


def _roll(x, shifts, dims=()):
    if not dims:
        return np.roll(x, shifts[0])
    return np.roll(x, tuple(shifts), axis=tuple(dims))


def _clamp(x, lo=None, hi=None):
    r = x
    if lo is not None:
        r = _maxmin(lambda a, b: a >= b)(r, lo)
    if hi is not None:
        r = _maxmin(lambda a, b: a <= b)(r, hi)
    return r


def _index(x, idx):
    ix = []
    for i in idx:
        if i is None:
            ix.append(slice(None))
        else:
            v = np.vectorize(lambda z: int(lift(z).as_fraction()), otypes=[int])(i) if i.size else i.astype(int)
            ix.append(v)
    return x[tuple(ix)]


def _norm(x, p=2, dim=None, keepdim=False, dtype=None):
    if p not in (None, 2):
        raise Unsupported('norm order')
    s = _sum(_map(lambda z: lift(z) * lift(z).conjugate(), x), dim, keepdim)
    return _map(lambda z: z.sqrt(), s)


_M = {
    'replication_pad1d.default': _pad_np('edge'), 'replication_pad2d.default': _pad_np('edge'),
    'prod.dim_int': _prod, 'prod.default': _prod, 'mm.default': _mmn, 'bmm.default': _mmn, 'mv.default': _mmn,
    'dot.default': _dotp, 'vdot.default': lambda a, b: _dotp(_map(lambda z: _num(z).conjugate(), a), b),
    '_fft_r2c.default': _fft_r2c, '_fft_c2r.default': _fft_c2r,
    'gather.default': _rearr(torch.ops.aten.gather.default), 'unfold.default': _rearr(torch.ops.aten.unfold.default),
    'take.default': _rearr(torch.ops.aten.take.default),
    'addcmul.default': lambda x, a, b, value=1: _binop(operator.add)(x, _map(lambda z: z * value, _binop(operator.mul)(a, b))),
    'addcdiv.default': lambda x, a, b, value=1: _binop(operator.add)(x, _map(lambda z: z * value, _binop(operator.truediv)(a, b))),
    'lerp.Scalar': lambda a, b, w: _bmap(lambda x, y: _num(x) + (_num(y) - _num(x)) * w, a, b),
    'lerp.Tensor': lambda a, b, w: _bmap(lambda x, y, v: _num(x) + (_num(y) - _num(x)) * _num(v), a, b, w),
    'cumsum.default': lambda x, d, dtype=None: np.cumsum(_map(_num, x), axis=d),
    'amax.default': lambda x, d=(), k=False: _reduce('maximum', x, axis=_dims(d, x.ndim), keepdims=k),
    'amin.default': lambda x, d=(), k=False: _reduce('minimum', x, axis=_dims(d, x.ndim), keepdims=k),
    'max.default': lambda x: _reduce('maximum', x, axis=_dims(None, x.ndim)),
    'min.default': lambda x: _reduce('minimum', x, axis=_dims(None, x.ndim)),
    'var.correction': lambda x, dim=None, correction=1, keepdim=False: _var(x, dim, correction, keepdim),
    'nan_to_num.default': lambda x, *a, **k: x.copy(), 'index_copy.default': _index_copy,
    'convolution.default': _convnd, 'avg_pool1d.default': _avgpool(1), 'avg_pool2d.default': _avgpool(2), 'avg_pool3d.default': _avgpool(3),
    'remainder.Scalar': lambda x, m: _map(lift, (_ints(x) % m).astype(object)),
    'floor_divide.default': lambda x, m: _map(lift, (_ints(x) // (m if not isinstance(m, np.ndarray) else _ints(m))).astype(object)),
    'tril.default': _rearr(torch.tril) and (lambda x, k=0: _map(lift, np.tril(np.ones(x.shape[-2:], int), k).astype(object)) * x),
    'select.int': _select, 'view.default': _view, 'reshape.default': _view, '_unsafe_view.default': _view,
    '_reshape_alias.default': lambda x, s, st: _view(x, s),
    'mul.Tensor': _binop(operator.mul), 'mul.Scalar': _binop(operator.mul), 'mul_.Tensor': _inplace(_binop(operator.mul)),
    'add.Tensor': _binop(operator.add), 'add.Scalar': _binop(operator.add), 'add_.Tensor': _inplace(_binop(operator.add)),
    'sub.Tensor': _binop(operator.sub), 'sub.Scalar': _binop(operator.sub), 'sub_.Tensor': _inplace(_binop(operator.sub)),
    'rsub.Scalar': _binop(lambda a, b: b - a), 'rsub.Tensor': _binop(lambda a, b: b - a),
    'div.Tensor': _binop(operator.truediv), 'div.Scalar': _binop(operator.truediv),
    'div_.Tensor': _inplace(_binop(operator.truediv)), 'div_.Scalar': _inplace(_binop(operator.truediv)),
    'neg.default': lambda x: _map(lambda z: -lift(z), x), 'reciprocal.default': lambda x: _map(lambda z: 1 / lift(z), x),
    'view_as_complex.default': _to_cplx, 'view_as_real.default': _to_real,
    'complex.default': lambda a, b: _bmap(lambda x, y: lift(x) + lift(y).times_i(), a, b),
    'real.default': lambda x: _map(lambda z: lift(z).real, x), 'imag.default': lambda x: _map(lambda z: lift(z).imag, x),
    '_conj.default': lambda x: _map(lambda z: lift(z).conjugate(), x),
    '_conj_physical.default': lambda x: _map(lambda z: lift(z).conjugate(), x),
    'conj_physical.default': lambda x: _map(lambda z: lift(z).conjugate(), x),
    'resolve_conj.default': lambda x: x, '_neg_view.default': lambda x: _map(lambda z: -lift(z), x),
    '_fft_c2c.default': _fft,
    'copy_.default': _copy_, 'unsqueeze.default': lambda x, d: np.expand_dims(x, d),
    'mean.dim': _mean, 'mean.default': _mean, 'sum.dim_IntList': _sum, 'sum.default': _sum,
    'pow.Tensor_Scalar': _pow, 'pow.Tensor_Tensor': _pow, 'square.default': lambda x: _pow(x, 2),
    'pow_.Scalar': _inplace(_pow),
    'abs.default': lambda x: _map(lambda z: abs(lift(z)), x),
    'sqrt.default': lambda x: _map(lambda z: lift(z).sqrt(), x), 'sqrt_.default': _inplace(lambda x: _map(lambda z: lift(z).sqrt(), x)),
    'rsqrt.default': lambda x: _map(lambda z: 1 / lift(z).sqrt(), x),
    'hypot.default': lambda a, b: _bmap(lambda x, y: (lift(x) * lift(x) + lift(y) * lift(y)).sqrt(), a, b),
    'exp.default': lambda x: _map(lambda z: lift(z).exp(), x),
    'slice.Tensor': _slice, 'narrow.default': lambda x, d, s, l: _slice(x, d, s, s + l),
    'zeros.default': lambda s, **k: _full(s, 0), 'ones.default': lambda s, **k: _full(s, 1),
    'full.default': lambda s, v, **k: _full(s, v), 'scalar_tensor.default': lambda v, **k: _full((), v),
    'zeros_like.default': lambda x, **k: _full(x.shape, 0), 'ones_like.default': lambda x, **k: _full(x.shape, 1),
    'full_like.default': lambda x, v, **k: _full(x.shape, v),
    'new_zeros.default': lambda x, s, **k: _full(s, 0), 'new_ones.default': lambda x, s, **k: _full(s, 1),
    'new_full.default': lambda x, s, v, **k: _full(s, v),
    'empty.memory_format': lambda s, **k: _undef(s), 'empty_like.default': lambda x, **k: _undef(x.shape),
    'new_empty.default': lambda x, s, **k: _undef(s), 'empty_strided.default': lambda s, st, **k: _undef(s),
    'new_empty_strided.default': lambda x, s, st, **k: _undef(s),
    'zero_.default': _inplace(lambda x: _full(x.shape, 0)), 'fill_.Scalar': _inplace(lambda x, v: _full(x.shape, v)),
    'fill_.Tensor': _inplace(lambda x, v: np.broadcast_to(v, x.shape)), 'fill.Scalar': lambda x, v: _full(x.shape, v),
    'expand.default': _expand, 'transpose.int': lambda x, a, b: np.swapaxes(x, a, b), 't.default': lambda x: x.T,
    'permute.default': _perm, 'clone.default': lambda x, **k: x.copy(), 'contiguous.default': lambda x, **k: x.copy(),
    'detach.default': lambda x: x, 'alias.default': lambda x: x, 'lift_fresh_copy.default': lambda x: x.copy(),
    'lift_fresh.default': lambda x: x, '_to_copy.default': lambda x, **k: _cast(x.copy(), k.get('dtype')),
    'to.dtype': lambda x, d, *a, **k: _cast(x, d),
    'stack.default': lambda ts, dim=0: np.stack(ts, axis=dim), 'cat.default': _cat,
    'split.Tensor': _split, 'split_with_sizes.default': _split_sizes,
    'unbind.int': lambda x, dim=0: [_select(x, dim, i) for i in range(x.shape[dim])],
    'chunk.default': lambda x, c, dim=0: _split(x, -(-x.shape[dim] // c), dim),
    'reflection_pad1d.default': _pad_refl, 'reflection_pad2d.default': _pad_refl, 'reflection_pad3d.default': _pad_refl,
    'constant_pad_nd.default': _pad_const,
    'reflection_pad1d_backward.default': _pad_bwd, 'reflection_pad2d_backward.default': _pad_bwd,
    'squeeze.dim': lambda x, d: np.squeeze(x, axis=d) if x.shape[d] == 1 else x,
    'squeeze.default': lambda x: np.squeeze(x),
    'squeeze.dims': lambda x, ds: np.squeeze(x, axis=tuple(d for d in ds if x.shape[d] == 1)),
    'select_backward.default': _select_bwd, 'slice_backward.default': _slice_bwd,
    'as_strided.default': _as_strided, 'flip.default': lambda x, dims: np.flip(x, axis=tuple(dims)),
    'roll.default': _roll, 'where.self': _where, 'where.ScalarOther': _where, 'where.ScalarSelf': _where,
    'masked_fill_.Scalar': _masked_fill_, 'masked_fill.Scalar': lambda x, m, v: _masked_fill_(x.copy(), m, v),
    'masked_fill_.Tensor': _masked_fill_, 'masked_fill.Tensor': lambda x, m, v: _masked_fill_(x.copy(), m, v),
    'eq.Scalar': _cmp('__eq__'), 'eq.Tensor': _cmp('__eq__'), 'ne.Scalar': _cmp('__ne__'), 'ne.Tensor': _cmp('__ne__'),
    'gt.Scalar': _cmp('__gt__'), 'gt.Tensor': _cmp('__gt__'), 'ge.Scalar': _cmp('__ge__'), 'ge.Tensor': _cmp('__ge__'),
    'lt.Scalar': _cmp('__lt__'), 'lt.Tensor': _cmp('__lt__'), 'le.Scalar': _cmp('__le__'), 'le.Tensor': _cmp('__le__'),
    'logical_and.default': lambda a, b: _bmap(_and, a, b), 'logical_or.default': lambda a, b: _bmap(_or, a, b),
    'bitwise_and.Tensor': lambda a, b: _bmap(_and, a, b), 'bitwise_or.Tensor': lambda a, b: _bmap(_or, a, b),
    'logical_not.default': lambda a: _map(lambda b: (not b) if isinstance(b, bool) else ~b, a),
    'bitwise_not.default': lambda a: _map(lambda b: (not b) if isinstance(b, bool) else ~b, a),
    'isnan.default': lambda x: _map(lambda z: False, x), 'isfinite.default': lambda x: _map(lambda z: True, x),
    'isinf.default': lambda x: _map(lambda z: False, x),
    'maximum.default': _maxmin(lambda a, b: a >= b), 'minimum.default': _maxmin(lambda a, b: a <= b),
    'clamp.default': _clamp, 'clamp_min.default': lambda x, v: _clamp(x, v), 'clamp_max.default': lambda x, v: _clamp(x, None, v),
    'relu.default': lambda x: _clamp(x, 0),
    'sign.default': lambda x: _map(lambda z: ite(lift(z) > 0, lift(1), ite(lift(z) < 0, lift(-1), lift(0))), x),
    'sgn.default': None,
    'index.Tensor': _index, 'index_select.default': lambda x, d, i: np.take(x, [int(lift(v).as_fraction()) for v in i], axis=d),
    'arange.default': lambda n, **k: _map(lift, np.arange(n).astype(object)),
    'arange.start': lambda a, b, **k: _map(lift, np.arange(a, b).astype(object)),
    'arange.start_step': lambda a, b, s=1, **k: _map(lift, np.arange(a, b, s).astype(object)),
    'linalg_vector_norm.default': _norm, 'norm.ScalarOpt_dim': lambda x, p, d, k=False: _norm(x, p, d, k),
    'movedim.intlist': lambda x, a, b: np.moveaxis(x, a, b),
    'repeat.default': lambda x, r: np.tile(x, tuple(r)),
    'diagonal.default': lambda x, o=0, d1=0, d2=1: np.diagonal(x, o, d1, d2),
}
_M = {k: v for k, v in _M.items() if v is not None}
_CMPLX_OUT = {}


def interpret(gm, inputs):
    env = {}
    it = iter(inputs)
    out = None
    consts = {}
    ops = set()
    for node in gm.graph.nodes:
        if node.op == 'placeholder':
            env[node] = next(it)
        elif node.op == 'get_attr':
            t = gm
            for part in node.target.split('.'):
                t = getattr(t, part)
            if node.target not in consts:
                consts[node.target] = const(t)
            env[node] = consts[node.target]
        elif node.op == 'call_function':
            args = torch.fx.node.map_arg(node.args, lambda n: env[n])
            kwargs = torch.fx.node.map_arg(node.kwargs, lambda n: env[n])
            if node.target is operator.getitem:
                env[node] = args[0][args[1]]
                continue
            name = str(node.target)
            if name.startswith('aten.'):
                name = name[5:]
            f = _M.get(name)
            if f is None:
                raise Unsupported('aten op ' + name)
            ops.add(name)
            r = f(*args, **kwargs)
            v = node.meta.get('val')
            if isinstance(v, torch.Tensor) and isinstance(r, np.ndarray) and tuple(v.shape) != r.shape:
                raise Unsupported('interpreter shape %s for %s, torch says %s' % (r.shape, name, tuple(v.shape)))
            env[node] = r
        elif node.op == 'output':
            out = torch.fx.node.map_arg(node.args[0], lambda n: env[n])
        else:
            raise Unsupported('fx node ' + node.op)
    interpret.ops = ops
    return out
