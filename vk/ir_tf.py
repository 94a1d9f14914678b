"""Symbolic execution of TensorFlow code: the real function is traced to a graph with tf.function
(autograph off) and the graph interpreted."""
import operator
import numpy as np
import tensorflow as tf
from . import poly
from .poly import Unsupported, lift, ite
from .symarr import _map, _bmap, _reduce, _and, _or


def _full(shape, v):
    o = np.empty(tuple(shape), dtype=object)
    o[...] = lift(v)
    return o


def const(a):
    a = np.asarray(a)
    if a.dtype == bool:
        return a.astype(object)
    if a.dtype.kind in 'SU' or a.dtype == object:
        return a
    return _map(lift, a.astype(object)) if a.ndim else _full((), a.item())


def _num(x):
    if isinstance(x, (bool, np.bool_)):
        return lift(int(x))
    if type(x).__name__ == 'SBool':
        return ite(x, lift(1), lift(0))
    return lift(x)


def ints(a):
    out = []
    for z in np.asarray(a, dtype=object).ravel():
        f = lift(z).as_fraction()
        if f is None:
            raise Unsupported('symbolic index')
        out.append(int(f))
    return out


def _b(f):
    return lambda op, a, b: _bmap(lambda x, y: f(_num(x), _num(y)), a, b)


def _u(f):
    return lambda op, a: _map(lambda x: f(_num(x)), a)


def _axes(ax, nd):
    return tuple(i % nd for i in ints(ax))


def _red(name):
    def g(op, x, ax):
        axes = _axes(ax, x.ndim) if x.ndim else ()
        return _reduce(name, x, axis=axes, keepdims=op.get_attr('keep_dims')) if axes else x
    return g


def _mean(op, x, ax):
    axes = _axes(ax, x.ndim)
    n = int(np.prod([x.shape[i] for i in axes]))
    return _map(lambda z: lift(z) / n, _reduce('add', x, axis=axes, keepdims=op.get_attr('keep_dims')))


def _ss(op, x, b, e, s):
    b, e, s = ints(b), ints(e), ints(s)
    bm, em, el, na, sh = (op.get_attr(k) for k in ('begin_mask', 'end_mask', 'ellipsis_mask', 'new_axis_mask',
                                                    'shrink_axis_mask'))
    idx = []
    for i in range(len(b)):
        bit = 1 << i
        if el & bit:
            idx.append(Ellipsis)
        elif na & bit:
            idx.append(None)
        elif sh & bit:
            idx.append(b[i])
        else:
            idx.append(slice(None if bm & bit else b[i], None if em & bit else e[i], s[i]))
    r = x[tuple(idx)]
    if not isinstance(r, np.ndarray):
        r = _full((), r)
    return r


def _cast(op, x):
    dt = op.outputs[0].dtype
    if dt.is_bool:
        return _map(lambda z: z if not hasattr(z, 't') else z != 0, x)
    if dt.is_integer:
        return _map(lambda z: lift(ints([_num(z)])[0]), x)
    if dt.is_complex:
        return _map(_num, x)
    return _map(lambda z: _num(z).real, x)


def _fft(nd, inv):
    def g(op, x):
        return poly.fft_axes(x, list(range(x.ndim - nd, x.ndim)), inv)
    return g


def _rfft(nd):
    def g(op, x, n):
        n = ints(n)
        if n != list(x.shape[x.ndim - nd:]):
            raise Unsupported('rfft resizing')
        f = poly.fft_axes(x, list(range(x.ndim - nd, x.ndim)), False)
        return f[..., :n[-1] // 2 + 1]
    return g


def _irfft(nd):
    def g(op, x, n):
        from .symarr import _irfft1
        n = ints(n)
        ax = list(range(x.ndim - nd, x.ndim))
        if nd > 1:
            x = poly.fft_axes(x, ax[:-1], True)
        return _irfft1(x, ax[-1], n[-1])
    return g


def _einsum(op, *xs):
    eq = op.get_attr('equation').decode()
    if '...' in eq:
        raise Unsupported('einsum with ellipsis')
    return np.einsum(eq, *[_map(_num, x) for x in xs])


def _cumsum(op, x, ax):
    a = ints(ax)[0]
    if op.get_attr('exclusive'):
        raise Unsupported('exclusive cumsum')
    if op.get_attr('reverse'):
        return np.flip(np.cumsum(np.flip(x, a), axis=a), a)
    return np.cumsum(x, axis=a)


def _gather_nd(op, x, idx):
    i = np.array(ints(idx)).reshape(idx.shape)
    return x[tuple(np.moveaxis(i, -1, 0))]


def _scatter_nd(add):
    def g(op, x, idx, u):
        i = np.array(ints(idx)).reshape(idx.shape)
        x = x.copy()
        for k in np.ndindex(*idx.shape[:-1]):
            t = tuple(i[k])
            x[t] = x[t] + u[k] if add else u[k]
        return x
    return g


def _euclid(op, x, ax):
    s = _map(lambda z: lift(z) * lift(z).conjugate(), x)
    return _map(lambda z: lift(z).sqrt(), _red('add')(op, s, ax))


def _divnn(x, y):
    return ite(y == 0, lift(0), x / y) if y.as_fraction() is None else (lift(0) if y.as_fraction() == 0 else x / y)


def _pads(p):
    v = ints(p)
    return [(v[2 * i], v[2 * i + 1]) for i in range(len(v) // 2)]


def _mirror(op, x, p):
    mode = op.get_attr('mode').decode()
    pw = _pads(p)
    for (l, r), n in zip(pw, x.shape):
        m = n if mode == 'SYMMETRIC' else n - 1
        if l > m or r > m:
            raise RuntimeError('mirror pad too large')
    return np.pad(x, pw, mode='symmetric' if mode == 'SYMMETRIC' else 'reflect')


def _pad(op, x, p, v=None):
    pw = _pads(p)
    o = _full([n + l + r for n, (l, r) in zip(x.shape, pw)], 0 if v is None else v[()])
    o[tuple(slice(l, l + n) for n, (l, r) in zip(x.shape, pw))] = x
    return o


def _sel(op, c, a, b):
    def pick(cc, x, y):
        if hasattr(cc, 't'):
            cc = bool(cc.as_fraction())
        if isinstance(cc, (bool, np.bool_)):
            return x if cc else y
        return ite(cc, lift(x), lift(y))
    return _bmap(pick, c, a, b)


def _gather(op, x, idx, ax):
    a = ints(ax)[0]
    i = np.array(ints(idx)).reshape(np.asarray(idx, dtype=object).shape)
    return np.take(x, i.astype(int), axis=a)


def _matmul(op, a, b):
    ta = tb = False
    try:
        ta, tb = op.get_attr('adj_x'), op.get_attr('adj_y')
        if ta: a = _map(lambda z: lift(z).conjugate(), np.swapaxes(a, -1, -2))
        if tb: b = _map(lambda z: lift(z).conjugate(), np.swapaxes(b, -1, -2))
    except ValueError:
        if op.get_attr('transpose_a'): a = np.swapaxes(a, -1, -2)
        if op.get_attr('transpose_b'): b = np.swapaxes(b, -1, -2)
    return np.matmul(a, b)


def _shape(op, x):
    return const(np.array(x.shape, dtype=np.int64))


def _concat(op, *a):
    *xs, ax = a
    return np.concatenate(xs, axis=ints(ax)[0])


def _split(op, ax, x):
    n = op.get_attr('num_split')
    return np.split(x, n, axis=ints(ax)[0])


def _splitv(op, x, sizes, ax):
    cuts = np.cumsum(ints(sizes))[:-1]
    return np.split(x, cuts, axis=ints(ax)[0])


def _unpack(op, x):
    ax = op.get_attr('axis')
    return [np.squeeze(s, axis=ax) for s in np.split(x, x.shape[ax], axis=ax)]


def _bcast(op, x, s):
    return np.broadcast_to(x, ints(s))


def _reshape(op, x, s):
    return x.reshape(tuple(ints(s)))


def _pack(op, *xs):
    return np.stack(xs, axis=op.get_attr('axis'))


def _squeeze(op, x):
    d = op.get_attr('squeeze_dims')
    return np.squeeze(x, axis=tuple(d) if d else None)


_T = {
    'IRFFT': _irfft(1), 'IRFFT2D': _irfft(2), 'IRFFT3D': _irfft(3), 'Einsum': _einsum, 'Cumsum': _cumsum, 'GatherNd': _gather_nd,
    'TensorScatterUpdate': _scatter_nd(False), 'TensorScatterAdd': _scatter_nd(True), 'EuclideanNorm': _euclid,
    'Relu': _u(lambda z: ite(z >= 0, z, lift(0))), 'Sign': _u(lambda z: ite(z > 0, lift(1), ite(z < 0, lift(-1), lift(0)))),
    'AddN': lambda op, *xs: _bmap(lambda *v: sum((_num(t) for t in v), lift(0)), *xs), 'DivNoNan': _b(_divnn),
    'SquaredDifference': _b(lambda a, b: (a - b) * (a - b).conjugate()),
    'L2Loss': lambda op, x: _full((), sum((lift(z) * lift(z) for z in x.ravel()), lift(0)) / 2),
    'Mul': _b(operator.mul), 'AddV2': _b(operator.add), 'Add': _b(operator.add), 'Sub': _b(operator.sub),
    'RealDiv': _b(operator.truediv), 'Pow': _b(lambda a, b: a ** b), 'Square': _u(lambda z: z * z),
    'Sqrt': _u(lambda z: z.sqrt()), 'Rsqrt': _u(lambda z: 1 / z.sqrt()), 'Neg': _u(lambda z: -z), 'Exp': _u(lambda z: z.exp()),
    'Abs': _u(abs), 'ComplexAbs': _u(abs), 'Real': _u(lambda z: z.real), 'Imag': _u(lambda z: z.imag),
    'Conj': _u(lambda z: z.conjugate()), 'Complex': _b(lambda a, b: a + b.times_i()),
    'Cast': _cast, 'Mean': _mean, 'Sum': _red('add'), 'Max': _red('maximum'), 'Min': _red('minimum'),
    'Prod': _red('multiply'), 'All': _red('logical_and'), 'Any': _red('logical_or'),
    'Identity': lambda op, x: x, 'IdentityN': lambda op, *x: list(x), 'StopGradient': lambda op, x: x, 'Reshape': _reshape, 'Transpose': lambda op, x, p: np.transpose(x, ints(p)),
    'ConjugateTranspose': lambda op, x, p: _map(lambda z: lift(z).conjugate(), np.transpose(x, ints(p))),
    'StridedSlice': _ss, 'Slice': lambda op, x, b, s: x[tuple(slice(i, None if n == -1 else i + n) for i, n in zip(ints(b), ints(s)))],
    'ConcatV2': _concat, 'Pack': _pack, 'Unpack': _unpack, 'Split': _split, 'SplitV': _splitv,
    'ExpandDims': lambda op, x, d: np.expand_dims(x, ints(d)[0]), 'Squeeze': _squeeze,
    'MirrorPad': _mirror, 'Pad': _pad, 'PadV2': _pad, 'GatherV2': _gather,
    'FFT': _fft(1, False), 'IFFT': _fft(1, True), 'FFT2D': _fft(2, False), 'IFFT2D': _fft(2, True),
    'FFT3D': _fft(3, False), 'IFFT3D': _fft(3, True), 'RFFT': _rfft(1), 'RFFT2D': _rfft(2), 'RFFT3D': _rfft(3),
    'FFTND': None, 'Shape': _shape, 'Fill': lambda op, s, v: _full(ints(s), v[()]),
    'ZerosLike': lambda op, x: _full(x.shape, 0), 'OnesLike': lambda op, x: _full(x.shape, 1),
    'Range': lambda op, a, b, s: const(np.arange(ints(a)[0], ints(b)[0], ints(s)[0])),
    'BroadcastTo': _bcast, 'Tile': lambda op, x, m: np.tile(x, ints(m)), 'ReverseV2': lambda op, x, ax: np.flip(x, axis=tuple(ints(ax))),
    'Roll': lambda op, x, s, a: np.roll(x, ints(s) if np.ndim(s) else ints(s)[0], axis=ints(a) if np.ndim(a) else ints(a)[0]),
    'SelectV2': _sel, 'Select': _sel, 'BatchMatMulV2': _matmul, 'MatMul': _matmul,
    'Maximum': _b(lambda a, b: ite(a >= b, a, b)), 'Minimum': _b(lambda a, b: ite(a <= b, a, b)),
    'Equal': _b(lambda a, b: a == b), 'NotEqual': _b(lambda a, b: a != b), 'Less': _b(lambda a, b: a < b),
    'LessEqual': _b(lambda a, b: a <= b), 'Greater': _b(lambda a, b: a > b), 'GreaterEqual': _b(lambda a, b: a >= b),
    'LogicalAnd': lambda op, a, b: _bmap(_and, a, b), 'LogicalOr': lambda op, a, b: _bmap(_or, a, b),
    'LogicalNot': lambda op, a: _map(lambda b: (not b) if isinstance(b, bool) else ~b, a),
    'FloorDiv': lambda op, a, b: const(np.array(ints(a)).reshape(a.shape) // np.array(ints(b)).reshape(b.shape)),
    'NoOp': lambda op: [], 'Snapshot': lambda op, x: x, 'EnsureShape': lambda op, x: x,
    'PreventGradient': lambda op, x: x,
}
_T = {k: v for k, v in _T.items() if v is not None}


def _call(g, nm, args):
    """a nested function: interpret its body graph"""
    from tensorflow.python.framework import function_def_to_graph as f2g
    fd = g._get_function(nm)
    fd = fd.cached_definition if hasattr(fd, 'cached_definition') else fd.function_def
    sub = f2g.function_def_to_graph(fd)
    return _run(sub, sub.inputs, sub.outputs, args, {}, set())


def interpret(cf, inputs):
    """cf: ConcreteFunction; inputs: object arrays for its tensor inputs"""
    ops = set()
    out = _run(cf.graph, cf.inputs, cf.outputs, inputs, {ph.name: ext for ext, ph in cf.graph.captures}, ops)
    interpret.ops = ops
    return out


def _run(g, gin, gout, inputs, cap, ops):
    env = {}
    for t, v in zip(gin, inputs):
        env[t.name] = v
    for op in g.get_operations():
        ty = op.type
        if ty == 'Placeholder':
            nm = op.outputs[0].name
            if nm not in env:
                if nm in cap:
                    ext = cap[nm]
                    if ext.dtype == tf.resource:
                        env[nm] = [v for v in g.variables if v.handle is ext][0]
                    else:
                        env[nm] = const(ext.numpy())
                else:
                    raise Unsupported('unbound placeholder')
            continue
        if ty == 'Const':
            env[op.outputs[0].name] = const(tf.make_ndarray(op.get_attr('value')))
            continue
        if ty == 'ReadVariableOp':
            env[op.outputs[0].name] = const(env[op.inputs[0].name].numpy())
            continue
        if ty in ('PartitionedCall', 'StatefulPartitionedCall'):
            nm = op.get_attr('f').name
            outs = _call(g, nm, [env[i.name] for i in op.inputs])
            for o, v in zip(op.outputs, outs):
                env[o.name] = v
            continue
        if ty in ('Assert', 'NoOp'):
            continue
        f = _T.get(ty)
        if f is None:
            raise Unsupported('tensorflow op ' + ty)
        ops.add(ty)
        outs = f(op, *[env[i.name] for i in op.inputs])
        if len(op.outputs) == 1 and not isinstance(outs, list):
            outs = [outs]
        for o, v in zip(op.outputs, outs):
            sh = o.shape
            if sh.rank is not None and sh.is_fully_defined() and tuple(sh.as_list()) != tuple(v.shape):
                raise Unsupported('interpreter shape %s for %s, tensorflow says %s' % (v.shape, ty, sh))
            env[o.name] = v
    return [env[o.name] for o in gout]


def trace(fn, *specs):
    return tf.function(fn, autograph=False).get_concrete_function(*[tf.TensorSpec(s, d) for s, d in specs])
