"""Symbolic execution of JAX code: the real function is traced to its jaxpr and the jaxpr interpreted."""
import operator
import numpy as np
import jax
jax.config.update('jax_enable_x64', True)
try:
    from jax.extend.core import Literal
except Exception:
    from jax.core import Literal
from . import poly
from .poly import Unsupported, lift, ite
from .symarr import _map, _bmap, _reduce, _and, _or


def _full(shape, v):
    o = np.empty(tuple(shape), dtype=object)
    o[...] = lift(v)
    return o


def const(v):
    a = np.asarray(v)
    if a.dtype == bool:
        return a.astype(object)
    return _map(lift, a.astype(object)) if a.ndim else _full((), a.item())


def _num(x):
    if isinstance(x, (bool, np.bool_)):
        return lift(int(x))
    if type(x).__name__ == 'SBool':
        return ite(x, lift(1), lift(0))
    return lift(x)


def _b(f):
    return lambda p, a, b: _bmap(lambda x, y: f(_num(x), _num(y)), a, b)


def _u(f):
    return lambda p, a: _map(lambda x: f(_num(x)), a)


def _bid(p, x, *dyn):
    shape, dims = p['shape'], p['broadcast_dimensions']
    ns = [1] * len(shape)
    for i, d in enumerate(dims):
        ns[d] = x.shape[i]
    return np.broadcast_to(x.reshape(ns), shape)


def _fft(p, x):
    kind = str(p['fft_type']).upper()
    lens = p['fft_lengths']
    axes = list(range(x.ndim - len(lens), x.ndim))
    if kind.endswith('IRFFT') or kind.endswith('IRFFT)'):
        from .symarr import _irfft1
        if len(axes) > 1:
            x = poly.fft_axes(x, axes[:-1], True)
        return _irfft1(x, axes[-1], lens[-1])
    if 'RFFT' in kind:
        f = poly.fft_axes(x, axes, False)
        return f[..., :lens[-1] // 2 + 1]
    return poly.fft_axes(x, axes, 'IFFT' in kind)


def _pad(p, x, v):
    v = v[()] if isinstance(v, np.ndarray) else v
    cfg = p['padding_config']
    if any(i for _, _, i in cfg):
        raise Unsupported('interior padding')
    shape = [n + l + h for n, (l, h, _) in zip(x.shape, cfg)]
    o = _full(shape, v)
    src, dst = [], []
    for n, (l, h, _) in zip(x.shape, cfg):
        dst.append(slice(max(l, 0), max(l, 0) + n + min(l, 0) + min(h, 0)))
        src.append(slice(max(-l, 0), n - max(-h, 0)))
    o[tuple(dst)] = x[tuple(src)]
    return o


def _slice(p, x):
    st = p['strides'] or [1] * x.ndim
    return x[tuple(slice(a, b, s) for a, b, s in zip(p['start_indices'], p['limit_indices'], st))]


def _int(v):
    v = v[()] if isinstance(v, np.ndarray) else v
    f = lift(v).as_fraction()
    if f is None:
        raise Unsupported('symbolic index')
    return int(f)


def _dynslice(p, x, *idx):
    sl = []
    for i, n, s in zip(idx, x.shape, p['slice_sizes']):
        k = min(max(_int(i), 0), n - s)
        sl.append(slice(k, k + s))
    return x[tuple(sl)]


def _dynupd(p, x, u, *idx):
    x = x.copy()
    sl = []
    for i, n, s in zip(idx, x.shape, u.shape):
        k = min(max(_int(i), 0), n - s)
        sl.append(slice(k, k + s))
    x[tuple(sl)] = u
    return x


def _gather(p, x, idx):
    """only with constant indices: run jax's own gather on an index array"""
    k = np.vectorize(lambda z: int(lift(z).as_fraction()), otypes=[np.int64])(idx)
    pos = np.arange(x.size).reshape(x.shape)
    out = np.asarray(jax.lax.gather_p.bind(jax.numpy.asarray(pos), jax.numpy.asarray(k), **p))
    r = np.empty(out.shape, dtype=object)
    flat = x.reshape(-1)
    for i in np.ndindex(*out.shape):
        r[i] = flat[out[i]]
    return r


def _scatter(add):
    """constant indices only: jax's own scatter tells which update lands where (later updates win)"""
    def g(p, x, idx, u):
        k = np.vectorize(lambda z: int(lift(z).as_fraction()), otypes=[np.int64])(idx) if idx.size else idx.astype(np.int64)
        r = x.copy().reshape(-1)
        q = {n: v for n, v in p.items() if n not in ('update_jaxpr', 'update_consts')}
        for i in np.ndindex(*u.shape):
            one = np.zeros(u.shape, dtype=np.int64)
            one[i] = 1
            hit = np.asarray(jax.lax.scatter_add(jax.numpy.zeros(x.shape, dtype='int64'), jax.numpy.asarray(k),
                                                 jax.numpy.asarray(one), p['dimension_numbers'],
                                                 indices_are_sorted=p['indices_are_sorted'],
                                                 unique_indices=p['unique_indices'], mode=p['mode'])).reshape(-1)
            for t in np.flatnonzero(hit):
                r[t] = _num(r[t]) + _num(u[i]) if add else u[i]
        return r.reshape(x.shape)
    return g


def _scan(p, *args):
    nc, ncar = p['num_consts'], p['num_carry']
    cs, car, xs = list(args[:nc]), list(args[nc:nc + ncar]), args[nc + ncar:]
    n = p['length']
    ys = [None] * n
    order = reversed(range(n)) if p['reverse'] else range(n)
    cj = p['jaxpr']
    for t in order:
        out = interpret(cj.jaxpr, [const(c) for c in cj.consts], cs + car + [x[t] if isinstance(x[t], np.ndarray) else _full((), x[t]) for x in xs])
        car, ys[t] = list(out[:ncar]), out[ncar:]
    return car + [np.stack([y[k] for y in ys]) for k in range(len(ys[0]) if ys else 0)]


def _cet(p, x):
    dt = np.dtype(p['new_dtype'])
    if dt.kind in 'iu':
        o = _map(_num, x)
        for z in o.ravel():
            f = z.as_fraction()
            if f is None:
                raise Unsupported('integer conversion')
        return _map(lambda z: lift(int(z.as_fraction())), o)
    if dt.kind == 'b':
        return _map(lambda z: z if not hasattr(z, 't') else z != 0, x)
    if dt.kind == 'f':
        return _map(lambda z: _num(z).real, x)
    return _map(_num, x)


def _sel(p, c, *cases):
    if len(cases) != 2:
        raise Unsupported('select_n')
    c = np.broadcast_to(c, cases[0].shape)
    def pick(cc, a, b):
        if hasattr(cc, 't'):
            cc = bool(cc.as_fraction())
        return ite(cc, lift(b), lift(a)) if not isinstance(cc, (bool, np.bool_)) else (b if cc else a)
    return _bmap(pick, c, *cases)


def _split(p, x):
    out, s = [], 0
    for n in p['sizes']:
        sl = [slice(None)] * x.ndim
        sl[p['axis']] = slice(s, s + n)
        out.append(x[tuple(sl)])
        s += n
    return out


def _dot(p, a, b):
    (ca, cb), (ba, bb) = p['dimension_numbers']
    ra = [i for i in range(a.ndim) if i not in ca and i not in ba]
    rb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    A = np.transpose(a, list(ba) + ra + list(ca))
    B = np.transpose(b, list(bb) + list(cb) + rb)
    bs = [a.shape[i] for i in ba]
    k = int(np.prod([a.shape[i] for i in ca]))
    A2 = A.reshape(bs + [-1, k])
    B2 = B.reshape(bs + [k, -1])
    R = np.matmul(A2, B2)
    return R.reshape(bs + [a.shape[i] for i in ra] + [b.shape[i] for i in rb])


_CMP = {'eq': '__eq__', 'ne': '__ne__', 'lt': '__lt__', 'le': '__le__', 'gt': '__gt__', 'ge': '__ge__'}


def _red(name):
    def g(p, x):
        return _reduce(name, x, axis=tuple(p['axes'])) if p['axes'] else x
    return g


_P = {
    'scatter': _scatter(False), 'scatter-add': _scatter(True), 'scan': _scan,
    'broadcast_in_dim': _bid, 'reshape': lambda p, x, *d: x.reshape(p['new_sizes']),
    'slice': _slice, 'dynamic_slice': _dynslice, 'dynamic_update_slice': _dynupd, 'gather': _gather,
    'convert_element_type': _cet, 'reduce_sum': _red('add'), 'reduce_max': _red('maximum'),
    'reduce_min': _red('minimum'), 'reduce_and': _red('logical_and'), 'reduce_or': _red('logical_or'),
    'reduce_prod': _red('multiply'),
    'mul': _b(operator.mul), 'add': _b(operator.add), 'add_any': _b(operator.add), 'sub': _b(operator.sub), 'div': _b(operator.truediv),
    'abs': _u(abs), 'neg': _u(lambda z: -z), 'real': _u(lambda z: z.real), 'imag': _u(lambda z: z.imag),
    'conj': _u(lambda z: z.conjugate()), 'sqrt': _u(lambda z: z.sqrt()), 'exp': _u(lambda z: z.exp()),
    'rsqrt': _u(lambda z: 1 / z.sqrt()), 'square': _u(lambda z: z * z),
    'integer_pow': lambda p, x: _map(lambda z: _num(z) ** p['y'], x), 'pow': _b(lambda a, b: a ** b),
    'complex': _b(lambda a, b: a + b.times_i()),
    'concatenate': lambda p, *xs: np.concatenate(xs, axis=p['dimension']),
    'rev': lambda p, x: np.flip(x, axis=tuple(p['dimensions'])),
    'transpose': lambda p, x: np.transpose(x, p['permutation']),
    'squeeze': lambda p, x: np.squeeze(x, axis=tuple(p['dimensions'])),
    'expand_dims': lambda p, x: np.expand_dims(x, tuple(p['dimensions'])),
    'pad': _pad, 'fft': _fft, 'copy': lambda p, x: x, 'copy_p': lambda p, x: x, 'stop_gradient': lambda p, x: x,
    'select_n': _sel, 'split': _split, 'dot_general': _dot,
    'max': _b(lambda a, b: ite(a >= b, a, b)), 'min': _b(lambda a, b: ite(a <= b, a, b)),
    'and': lambda p, a, b: _bmap(_and, a, b), 'or': lambda p, a, b: _bmap(_or, a, b),
    'not': lambda p, a: _map(lambda b: (not b) if isinstance(b, bool) else ~b, a),
    'iota': lambda p: _bid({'shape': p['shape'], 'broadcast_dimensions': (p['dimension'],)},
                           const(np.arange(p['shape'][p['dimension']]))),
    'is_finite': lambda p, x: _map(lambda z: True, x),
    'sign': _u(lambda z: ite(z > 0, lift(1), ite(z < 0, lift(-1), lift(0)))),
    'cumsum': lambda p, x: np.cumsum(x, axis=p['axis']) if not p['reverse'] else np.flip(np.cumsum(np.flip(x, p['axis']), axis=p['axis']), p['axis']),
    'device_put': lambda p, *x: list(x), 'optimization_barrier': lambda p, *x: list(x),
}
for _k, _v in _CMP.items():
    _P[_k] = (lambda nm: lambda p, a, b: _bmap(lambda x, y: getattr(_num(x), nm)(_num(y)), a, b))(_v)


def interpret(jaxpr, consts, args, ops=None):
    env = {}
    ops = set() if ops is None else ops

    def read(v):
        return const(v.val) if isinstance(v, Literal) else env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        vals = [read(v) for v in eqn.invars]
        name = eqn.primitive.name
        p = eqn.params
        ops.add(name)
        if name in ('pjit', 'closed_call', 'core_call', 'remat', 'custom_jvp_call', 'custom_vjp_call', 'jit',
                    'custom_vjp_call_jaxpr', 'checkpoint'):
            cj = p.get('jaxpr') or p.get('call_jaxpr') or p.get('fun_jaxpr')
            cs = [const(c) for c in getattr(cj, 'consts', [])]
            outs = interpret(getattr(cj, 'jaxpr', cj), cs, vals, ops)
        else:
            f = _P.get(name)
            if f is None:
                raise Unsupported('jax primitive ' + name)
            outs = f(p, *vals)
            if not eqn.primitive.multiple_results:
                outs = [outs]
        for v, o in zip(eqn.outvars, outs):
            if tuple(v.aval.shape) != tuple(o.shape):
                raise Unsupported('interpreter shape %s for %s, jax says %s' % (o.shape, name, v.aval.shape))
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def trace(fn, *arrays):
    return jax.make_jaxpr(fn)(*arrays)


def run(fn, arrays, inputs):
    """fn: pytree-free function on jax arrays returning an array or list of arrays"""
    closed = trace(fn, *arrays)
    ops = set()
    out = interpret(closed.jaxpr, [const(c) for c in closed.consts], inputs, ops)
    run.ops = ops
    return out
