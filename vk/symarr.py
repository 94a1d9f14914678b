"""Symbolic ndarrays: a real numpy.ndarray subclass holding symbolic scalars, so that numpy's own
code does all indexing, padding, reshaping and broadcasting; only arithmetic and FFTs are symbolic."""
import sys
import numpy as np
import scipy.fft
from . import poly
from .poly import Z, C, Unsupported, lift, ite
from .engine import SBool

F32, F64, C64, C128 = (np.dtype(t) for t in ('float32', 'float64', 'complex64', 'complex128'))
_CPLX = {F32: C64, F64: C128, np.dtype('float16'): C64}
_REAL = {C64: F32, C128: F64}


def real_of(dt): return _REAL.get(dt, dt)
def cplx_of(dt): return dt if dt.kind == 'c' else _CPLX.get(dt, C128)


def obj(a):
    """plain object ndarray view/copy of anything"""
    if isinstance(a, np.ndarray):
        a = a.view(np.ndarray)
        return a if np.ndarray.dtype.__get__(a) == object else a.astype(object)
    b = np.empty((), dtype=object)
    b[()] = a
    return b


class SymArray(np.ndarray):
    def __new__(cls, o, dtype=F64):
        o = np.asarray(o, dtype=object)
        s = o.view(cls)
        s._dt = np.dtype(dtype)
        return s

    def __array_finalize__(self, src):
        self._dt = getattr(src, '_dt', F64)

    @property
    def dtype(self):
        return self._dt

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self._dt.itemsize * self.size

    @property
    def real(self):
        return SymArray(_map(lambda z: lift(z).real, self), real_of(self._dt))

    @real.setter
    def real(self, v):
        im = self.imag
        self[...] = SymArray(np.asarray(obj(v) + obj(im) * lift(1j)), self._dt)

    @property
    def imag(self):
        return SymArray(_map(lambda z: lift(z).imag, self), real_of(self._dt))

    @imag.setter
    def imag(self, v):
        re = self.real
        self[...] = SymArray(np.asarray(obj(re) + obj(v) * lift(1j)), self._dt)

    def astype(self, dtype, *a, **k):
        return cast(self, np.dtype(dtype))

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, *a, **k)
        if not a and 'type' in k:
            return np.ndarray.view(self, **k)
        if a and np.dtype(a[0]) == self._dt:
            return self[...]
        raise Unsupported('reinterpreting view')

    def conj(self): return np.conjugate(self)
    conjugate = conj

    def item(self, *a):
        return np.ndarray.view(self, np.ndarray).item(*a)

    def tolist(self):
        return np.ndarray.view(self, np.ndarray).tolist()

    def _red(self, f, *a, **k):
        return f(self, *a, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.mean(self, axis=axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.prod(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, **k): return np.max(self, axis=axis, **k)
    def min(self, axis=None, **k): return np.min(self, axis=axis, **k)
    def any(self, axis=None, **k): return np.any(self, axis=axis, **k)
    def all(self, axis=None, **k): return np.all(self, axis=axis, **k)
    def cumsum(self, axis=None, **k): return np.cumsum(self, axis=axis)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(np.ndarray.view(self, np.ndarray).reshape(-1)[0])

    def __float__(self):
        return float(np.ndarray.view(self, np.ndarray).reshape(-1)[0])

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling')

    def __repr__(self):
        return 'Sym%s%s' % (self.shape, self._dt)

    # ---- numpy protocols ---------------------------------------------
    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        dts = [_dt_of(x) for x in inputs]
        name = uf.__name__
        kw.pop('dtype', None)
        kw.pop('casting', None)
        where = kw.pop('where', True)
        if where is not True:
            raise Unsupported('ufunc where=')
        ins = [_unw(x) for x in inputs]
        rdt = _result(name, dts)
        if method == '__call__':
            if name in _ELEM:
                res = _bmap(_ELEM[name], *ins)
            elif name in _CMPS:
                res = _bmap(_CMPS[name], *ins)
            elif uf.nin == 1:
                raise Unsupported('ufunc ' + name)
            else:
                if name not in ('add', 'subtract', 'multiply', 'true_divide', 'divide', 'power', 'matmul'):
                    raise Unsupported('ufunc ' + name)
                if name == 'matmul':
                    res = np.matmul(*ins)
                elif name == 'power':
                    res = _bmap(_power, *ins)
                else:
                    res = getattr(np, name)(*[_l(i) for i in ins])
        elif method == 'reduce':
            if name not in ('add', 'multiply', 'logical_and', 'logical_or', 'maximum', 'minimum'):
                raise Unsupported('reduce ' + name)
            kw = {k: v for k, v in kw.items() if k in ('axis', 'keepdims') and v is not None or k == 'axis'}
            res = _reduce(name, ins[0], **kw)
            if name in ('logical_and', 'logical_or'):
                rdt = np.dtype(bool)
        elif method == 'accumulate' and name == 'add':
            res = np.cumsum(_l(ins[0]), axis=kw.get('axis', 0))
        elif method == 'outer':
            a, b = ins
            res = getattr(np, name)(_l(a).reshape(a.shape + (1,) * b.ndim), _l(b))
        elif method == 'at':
            raise Unsupported('ufunc.at')
        else:
            raise Unsupported('ufunc method ' + method)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymArray):
                if rdt.kind == 'c' and o._dt.kind != 'c':
                    raise TypeError("Cannot cast ufunc '%s' output from %s to %s" % (name, rdt, o._dt))
                np.ndarray.view(o, np.ndarray)[...] = res
                return o
            raise Unsupported('symbolic result into a numeric array')
        return wrap(res, rdt)

    def __array_function__(self, func, types, args, kwargs):
        h = _HANDLERS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        mod = getattr(func, '__module__', '') or ''
        if 'fft' in mod and func.__name__ not in ('fftshift', 'ifftshift', 'fftfreq'):
            return sym_fft(func.__name__, args, kwargs)
        if func.__name__ not in _STRUCT:
            raise Unsupported('numpy function ' + func.__name__)
        dts = []
        uargs = _unwrap_deep(args, dts)
        ukw = _unwrap_deep({k: v for k, v in kwargs.items() if k != 'dtype'}, dts)
        res = func(*uargs, **ukw)
        rdt = _result('add', dts)
        if func.__name__ in ('copyto', 'put', 'fill_diagonal', 'place', 'putmask'):
            return res
        return _rewrap(res, rdt)


_STRUCT = set('''pad stack concatenate hstack vstack dstack column_stack split array_split hsplit vsplit dsplit
 moveaxis swapaxes transpose reshape ravel squeeze expand_dims broadcast_to broadcast_arrays roll rollaxis
 flip fliplr flipud rot90 tile repeat take take_along_axis copy array_equal atleast_1d atleast_2d atleast_3d
 fftshift ifftshift diff append insert delete copyto diagonal diag block resize compress extract shape ndim size
 triu tril kron trim_zeros shares_memory may_share_memory'''.split())


def _dt_of(x):
    if isinstance(x, SymArray):
        return x._dt
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return None
        return x.dtype
    if isinstance(x, (bool, int)):
        return None
    if isinstance(x, float):
        return None
    if isinstance(x, complex):
        return 'c'
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, Z):
        return None if x.is_real() else 'c'
    return None


def _result(name, dts):
    c = any(d == 'c' if isinstance(d, str) else (d is not None and d.kind == 'c') for d in dts)
    real = [real_of(d) for d in dts if d is not None and not isinstance(d, str)]
    fl = [d for d in real if d.kind == 'f']
    r = np.result_type(*fl) if fl else F64
    if name in ('absolute', 'fabs'):
        return r
    if name in _CMPS or name in ('isnan', 'isfinite', 'isinf', 'logical_and', 'logical_or', 'logical_not', 'signbit'):
        return np.dtype(bool)
    if not fl and real and all(d.kind == 'b' for d in real):
        return np.dtype(bool)
    return cplx_of(r) if c else r


def _unw(x):
    return obj(x)


def _l(a):
    """lift every entry (python ints/floats in object arrays would overflow precision)"""
    return _map(lambda v: v if isinstance(v, (Z, SBool)) else lift(v), a)


def _map(f, a):
    a = np.ndarray.view(a, np.ndarray) if isinstance(a, np.ndarray) else obj(a)
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = f(a[()])
        return out
    af, of = a.reshape(-1), out.reshape(-1)
    for i in range(af.shape[0]):
        of[i] = f(af[i])
    return out


def _bmap(f, *arrs):
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else list(arrs)
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[b[i] for b in bs])
    return out


def _sb(x):
    return x if isinstance(x, (SBool, bool)) else bool(x)


def _max(a, b):
    a, b = lift(a), lift(b)
    return ite(a >= b, a, b)


def _min(a, b):
    a, b = lift(a), lift(b)
    return ite(a <= b, a, b)


def _sign(z):
    z = lift(z)
    return ite(z > 0, lift(1), ite(z < 0, lift(-1), lift(0)))


_ELEM = {
    'absolute': lambda z: abs(lift(z)), 'fabs': lambda z: abs(lift(z)),
    'conjugate': lambda z: lift(z).conjugate(), 'negative': lambda z: -lift(z), 'positive': lambda z: z,
    'sqrt': lambda z: lift(z).sqrt(), 'square': lambda z: lift(z) * lift(z), 'exp': lambda z: lift(z).exp(),
    'cos': lambda z: lift(z).cos(), 'sin': lambda z: lift(z).sin(), 'arctan2': lambda a, b: lift(a).arctan2(b),
    'reciprocal': lambda z: 1 / lift(z), 'isnan': lambda z: False, 'isinf': lambda z: False,
    'isfinite': lambda z: True, 'sign': _sign, 'logical_not': lambda b: (~b if isinstance(b, SBool) else not b),
    'invert': lambda b: (~b if isinstance(b, SBool) else not b),
    'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'logical_and': lambda a, b: _and(a, b), 'logical_or': lambda a, b: _or(a, b),
    'bitwise_and': lambda a, b: _and(a, b), 'bitwise_or': lambda a, b: _or(a, b),
    'hypot': lambda a, b: (lift(a) * lift(a) + lift(b) * lift(b)).sqrt(),
}
_CMPS = {
    'less': lambda a, b: lift(a) < lift(b), 'less_equal': lambda a, b: lift(a) <= lift(b),
    'greater': lambda a, b: lift(a) > lift(b), 'greater_equal': lambda a, b: lift(a) >= lift(b),
    'equal': lambda a, b: lift(a) == lift(b), 'not_equal': lambda a, b: lift(a) != lift(b),
}


def _and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return a & b


def _or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return a | b


def _power(a, b):
    a = lift(a)
    b = lift(b)
    return a ** b


def _reduce(name, a, axis=0, keepdims=False):
    if axis is None:
        axis = tuple(range(a.ndim))
    if not isinstance(axis, tuple):
        axis = (axis,)
    axis = tuple(x % a.ndim for x in axis)
    rest = [i for i in range(a.ndim) if i not in axis]
    t = np.transpose(a, rest + list(axis))
    n = int(np.prod([a.shape[i] for i in axis])) if axis else 1
    sh = [a.shape[i] for i in rest]
    t = t.reshape(sh + [n])
    out = np.empty(sh, dtype=object)
    f = {'add': lambda x, y: x + y, 'multiply': lambda x, y: x * y, 'logical_and': _and, 'logical_or': _or,
         'maximum': _max, 'minimum': _min}[name]
    for i in np.ndindex(*sh):
        row = t[i]
        if n == 0:
            acc = {'add': lift(0), 'multiply': lift(1), 'logical_and': True, 'logical_or': False}[name]
        elif name in ('logical_and', 'logical_or'):
            acc = row[0] if isinstance(row[0], SBool) else bool(row[0])
            for v in row[1:]:
                acc = f(acc, v if isinstance(v, SBool) else bool(v))
        else:
            acc = lift(row[0])
            for v in row[1:]:
                acc = f(acc, lift(v))
        if isinstance(acc, Z):
            acc = acc.norm()
        out[i] = acc
    if keepdims:
        out = out.reshape([1 if i in axis else a.shape[i] for i in range(a.ndim)])
    return out


def wrap(res, dt):
    if not isinstance(res, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = res
        res = b
    return SymArray(res, dt)


def _unwrap_deep(x, dts):
    if isinstance(x, SymArray):
        dts.append(x._dt)
        return np.ndarray.view(x, np.ndarray)
    if isinstance(x, np.ndarray):
        dts.append(_dt_of(x))
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(_unwrap_deep(y, dts) for y in x)
    if isinstance(x, dict):
        return {k: _unwrap_deep(v, dts) for k, v in x.items()}
    return x


def _rewrap(res, dt):
    if isinstance(res, np.ndarray) and res.dtype == object:
        return SymArray(res, dt)
    if isinstance(res, (list, tuple)):
        return type(res)(_rewrap(r, dt) for r in res)
    return res


def cast(a, dt):
    o = np.ndarray.view(a, np.ndarray) if isinstance(a, np.ndarray) else obj(a)
    if dt.kind in 'iu' or dt.kind == 'b':
        if dt == getattr(a, '_dt', None):
            return a.copy()
        if dt.kind == 'b':
            return SymArray(_map(lambda z: z if isinstance(z, (SBool, bool)) else lift(z) != 0, o), dt)
        raise Unsupported('cast of symbolic values to integers')
    src = getattr(a, '_dt', F64)
    if src.kind == 'b':
        return SymArray(_map(lambda b: ite(b, lift(1), lift(0)), o), dt)
    if src.kind == 'c' and dt.kind == 'f':
        return SymArray(_map(lambda z: lift(z).real, o), dt)
    return SymArray(o.copy(), dt)


# ---- handlers ---------------------------------------------------------------
def _h_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = a if isinstance(a, SymArray) else SymArray(obj(a))
    s = np.add.reduce(a, axis=axis if axis is None or isinstance(axis, tuple) else axis, keepdims=bool(keepdims))
    ax = tuple(range(a.ndim)) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
    n = int(np.prod([a.shape[i] for i in ax]))
    return SymArray(_map(lambda z: lift(z) / n, obj(s)), a._dt)


def _h_avg(a, axis, w):
    a, w = _sa(a), _sa(w)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
    w = w * np.ones_like(a)
    return np.sum(a * w, axis=axis) / np.sum(w, axis=axis)


def _h_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = _sa(a)
    d = a - np.mean(a, axis=axis, keepdims=True)
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in np.atleast_1d(axis)]))
    return np.sum(d.real * d.real + d.imag * d.imag, axis=axis, keepdims=bool(keepdims)) / (n - ddof)


def _h_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min, a_max = k.get('min', a_min), k.get('max', a_max)
    a = _sa(a)
    if a_min is not None:
        a = np.maximum(a, a_min)
    if a_max is not None:
        a = np.minimum(a, a_max)
    return a


def _h_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = np.where(c, v, r)
    return r


def _h_swv(x, window_shape, axis=None, **k):
    if axis is None:
        axis = tuple(range(x.ndim))
    win, axs = list(np.atleast_1d(window_shape)), [int(t) % x.ndim for t in np.atleast_1d(axis)]
    sh = list(x.shape)
    for w, t in zip(win, axs):
        sh[t] -= int(w) - 1
    o = obj(x)
    res = np.empty(tuple(sh) + tuple(int(w) for w in win), dtype=object)
    for i in np.ndindex(*res.shape):
        j = list(i[:x.ndim])
        for t, q in zip(axs, i[x.ndim:]):
            j[t] += q
        res[i] = o[tuple(j)]
    return SymArray(res, x._dt)


def _h_apply(f, axis, a, *args, **k):
    a = np.moveaxis(_sa(a), axis, -1)
    rows = [_sa(f(a[i], *args, **k)) for i in np.ndindex(*a.shape[:-1])]
    o = np.stack([obj(r) for r in rows]).reshape(a.shape[:-1] + rows[0].shape)
    return np.moveaxis(SymArray(o, rows[0]._dt), -1, axis) if rows[0].ndim == 1 else SymArray(o, rows[0]._dt)


def _h_convolve(a, v, mode='full'):
    a, v = _sa(a), _sa(v)
    if len(v) > len(a):
        a, v = v, a
    x, y = obj(a), obj(v)
    n, m = len(x), len(y)
    full = [sum((lift(x[k]) * lift(y[i - k]) for k in range(max(0, i - m + 1), min(n, i + 1))), lift(0)) for i in range(n + m - 1)]
    if mode == 'same':
        full = full[(m - 1) // 2:(m - 1) // 2 + n]
    elif mode == 'valid':
        full = full[m - 1:n]
    o = np.empty(len(full), dtype=object)
    o[:] = full
    return SymArray(o, _result('add', [a._dt, v._dt]))


def _h_trapz(y, x=None, dx=1.0, axis=-1):
    if x is not None:
        raise Unsupported('trapz')
    y = np.moveaxis(_sa(y), axis, -1)
    return (y[..., 1:] + y[..., :-1]).sum(-1) * (dx / 2)


def _h_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = _sa(a), _sa(b)
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def _h_meshgrid(xs, indexing):
    xs = [_sa(x).ravel() for x in xs]
    n = len(xs)
    out = []
    for i, x in enumerate(xs):
        sh = [1] * n
        sh[i] = -1
        o = np.broadcast_to(obj(x).reshape(sh), [len(y) for y in xs]).copy()
        out.append(SymArray(np.swapaxes(o, 0, 1) if indexing == 'xy' and n > 1 else o, x._dt))
    return out


def _h_polyval(p, x):
    y = np.zeros_like(x)
    for c in p:
        y = y * x + c
    return y


def _sa(a):
    return a if isinstance(a, SymArray) else SymArray(obj(np.asarray(a)), _dt_of(np.asarray(a)) or F64)


def _h_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.add.reduce(_sa(a), axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False)


def _h_prod(a, axis=None, keepdims=False, **k):
    return np.multiply.reduce(_sa(a), axis=axis, keepdims=keepdims if keepdims is True else False)


def _h_any(a, axis=None, **k):
    return np.logical_or.reduce(_sa(a), axis=axis)


def _h_all(a, axis=None, **k):
    return np.logical_and.reduce(_sa(a), axis=axis)


def _h_max(a, axis=None, keepdims=False, **k):
    return np.maximum.reduce(_sa(a), axis=axis, keepdims=keepdims is True)


def _h_min(a, axis=None, keepdims=False, **k):
    return np.minimum.reduce(_sa(a), axis=axis, keepdims=keepdims is True)


def _h_cumsum(a, axis=None, **k):
    a = _sa(a)
    return SymArray(np.cumsum(_l(obj(a)), axis=axis), a._dt)


def _h_where(c, *ab):
    if not ab:
        # indices where true: forks on every element
        m = _map(lambda b: bool(b), obj(c))
        return np.where(m.astype(bool))
    a, b = ab
    dt = _result('add', [_dt_of(a), _dt_of(b)])
    return wrap(_bmap(lambda cc, x, y: ite(cc if isinstance(cc, (SBool, bool)) else bool(cc), lift(x), lift(y)),
                      obj(c), obj(np.asarray(a) if not isinstance(a, np.ndarray) else a),
                      obj(np.asarray(b) if not isinstance(b, np.ndarray) else b)), dt)


def _like(val):
    def f(a, dtype=None, shape=None, **k):
        sh = a.shape if shape is None else shape
        o = np.empty(sh, dtype=object)
        o[...] = lift(val)
        return SymArray(o, dtype or a._dt)
    return f


def _h_dot(a, b):
    a, b = _sa(a), _sa(b)
    return wrap(np.dot(_l(obj(a)), _l(obj(b))), _result('add', [a._dt, b._dt]))


def _h_linalg_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or isinstance(axis, tuple):
        raise Unsupported('norm')
    x = _sa(x)
    return np.sqrt(np.sum(np.abs(x) ** 2, axis=axis, keepdims=keepdims))


_HANDLERS = {
    np.mean: _h_mean, np.average: lambda a, axis=None, weights=None, **k: _h_mean(a, axis) if weights is None else _h_avg(a, axis, weights), np.sum: _h_sum, np.prod: _h_prod,
    np.any: _h_any, np.all: _h_all, np.max: _h_max, np.amax: _h_max, np.min: _h_min, np.amin: _h_min,
    np.cumsum: _h_cumsum, np.where: _h_where, np.zeros_like: _like(0), np.ones_like: _like(1),
    np.empty_like: _like(0), np.dot: _h_dot, np.linalg.norm: _h_linalg_norm,
    np.full_like: lambda a, v, **k: _like(v)(a),
    np.real: lambda a: a.real, np.imag: lambda a: a.imag,
    np.isrealobj: lambda a: a._dt.kind != 'c', np.iscomplexobj: lambda a: a._dt.kind == 'c',
    np.array_equal: lambda a, b, **k: (a.shape == b.shape) and bool(np.all(a == b)),
    np.angle: None, np.nan_to_num: lambda a, **k: a.copy(),
    np.result_type: lambda *a: _result('add', [_dt_of(x) for x in a]),
    np.round: None,
    np.einsum: None,
}
_HANDLERS.update({
    np.var: _h_var, np.std: lambda a, *r, **k: np.sqrt(_h_var(a, *r, **k)), np.clip: _h_clip, np.select: _h_select,
    np.lib.stride_tricks.sliding_window_view: _h_swv, np.apply_along_axis: _h_apply, np.convolve: _h_convolve,
    np.trapz: _h_trapz, np.allclose: _h_allclose, np.polyval: _h_polyval, np.nansum: _h_sum, np.nanmean: _h_mean,
    np.nanmax: _h_max, np.nanmin: _h_min, np.nanprod: _h_prod, np.ptp: lambda a, axis=None, **k: _h_max(a, axis) - _h_min(a, axis),
    np.vdot: lambda a, b: _h_dot(np.conj(_sa(a).ravel()), _sa(b).ravel()),
    np.trace: lambda a, **k: np.einsum('ii->', a) if not k and a.ndim == 2 else (_ for _ in ()).throw(Unsupported('trace')),
    np.real_if_close: lambda a, **k: a if a._dt.kind != 'c' else (_ for _ in ()).throw(Unsupported('real_if_close')),
    np.isclose: lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: np.abs(_sa(a) - _sa(b)) <= atol + rtol * np.abs(_sa(b)),
    np.meshgrid: lambda *xs, indexing='xy', **k: _h_meshgrid(xs, indexing),
})
_HANDLERS = {k: v for k, v in _HANDLERS.items() if v is not None}


def _truth(a):
    """which elements are true / nonzero: forks on every element"""
    return _map(lambda b: bool(b), obj(a)).astype(bool)


def _h_argext(big):
    def f(a, axis=None, out=None, keepdims=False):
        a = _sa(a)
        if a._dt.kind == 'b':
            return (np.argmax if big else np.argmin)(_truth(a), axis=axis)
        o = obj(a)
        if axis is None:
            o, axis = o.reshape(-1), 0
        o = np.moveaxis(o, axis, -1)
        res = np.zeros(o.shape[:-1], dtype=int)
        for i in np.ndindex(*o.shape[:-1]):
            best = 0
            for k in range(1, o.shape[-1]):
                c = lift(o[i + (k,)]) > lift(o[i + (best,)]) if big else lift(o[i + (k,)]) < lift(o[i + (best,)])
                if c:
                    best = k
            res[i] = best
        return res if res.shape else int(res)
    return f


def _multi(fn):
    def f(*a, **k):
        b = [_l(obj(_sa(x))) if isinstance(x, np.ndarray) else x for x in a]
        r = fn(*b, **k)
        dt = _result('add', [_dt_of(x) for x in a if isinstance(x, np.ndarray)])
        return wrap(np.asarray(r, dtype=object), dt) if isinstance(r, np.ndarray) else r
    return f


_HANDLERS.update({
    np.argmax: _h_argext(True), np.argmin: _h_argext(False),
    np.nonzero: lambda a: np.nonzero(_truth(a)), np.flatnonzero: lambda a: np.flatnonzero(_truth(a)),
    np.argwhere: lambda a: np.argwhere(_truth(a)), np.count_nonzero: lambda a, axis=None, **k: np.count_nonzero(_truth(a), axis=axis),
    np.outer: _multi(np.outer), np.tensordot: _multi(np.tensordot), np.inner: _multi(np.inner), np.einsum: _multi(np.einsum),
    np.cumprod: lambda a, axis=None, **k: SymArray(np.cumprod(_l(obj(_sa(a))), axis=axis), _sa(a)._dt),
})


# ---- FFTs ------------------------------------------------------------------------
def _resize(o, ax, n):
    m = o.shape[ax]
    if n <= m:
        sl = [slice(None)] * o.ndim
        sl[ax] = slice(0, n)
        return o[tuple(sl)]
    sh = list(o.shape)
    sh[ax] = n - m
    z = np.ndarray(sh, dtype=object)
    z[...] = lift(0)
    return np.concatenate([o, z], axis=ax)


def _irfft1(o, ax, n):
    """inverse of the half spectrum along one axis: the imaginary parts of DC and Nyquist are ignored"""
    h = n // 2 + 1
    o = np.moveaxis(_resize(o, ax, h), ax, -1)
    full = np.empty(o.shape[:-1] + (n,), dtype=object)
    for i in np.ndindex(*o.shape[:-1]):
        for k in range(n):
            full[i + (k,)] = lift(o[i + (k,)]) if k < h else lift(o[i + (n - k,)]).conjugate()
        full[i + (0,)] = full[i + (0,)].real
        if n % 2 == 0:
            full[i + (n // 2,)] = full[i + (n // 2,)].real
    r = poly.fft_axes(full, [full.ndim - 1], True)
    return np.moveaxis(_map(lambda z: lift(z).real, r), -1, ax)


def sym_fft(name, args, kwargs):
    a = args[0] if args else kwargs.get('x', kwargs.get('a'))
    kw = dict(kwargs)
    names = {1: ['n', 'axis', 'norm'], 2: ['s', 'axes', 'norm']}
    one = name in ('fft', 'ifft', 'rfft', 'irfft', 'hfft', 'ihfft')
    for k, v in zip(names[1 if one else 2], args[1:]):
        kw[k] = v
    norm = kw.get('norm')
    if norm not in (None, 'backward', 'ortho', 'forward'):
        raise ValueError('Invalid norm value %r' % (norm,))
    a = _sa(a)
    if one:
        axes = [-1 if kw.get('axis') is None else kw['axis']]
        sizes = None if kw.get('n') is None else [kw['n']]
    else:
        sizes = kw.get('s')
        sizes = None if sizes is None else list(np.atleast_1d(sizes))
        axes = kw.get('axes')
        if axes is None:
            if name.endswith('2'):
                axes = (-2, -1)
            else:
                axes = tuple(range(a.ndim))
                if sizes is not None:
                    axes = axes[-len(sizes):]
        axes = list(np.atleast_1d(axes))
    axes = [int(x) % a.ndim for x in axes]
    base = {'fft': 'fft', 'ifft': 'ifft', 'fftn': 'fft', 'ifftn': 'ifft', 'fft2': 'fft', 'ifft2': 'ifft',
            'rfft': 'rfft', 'irfft': 'irfft', 'rfft2': 'rfft', 'irfft2': 'irfft', 'rfftn': 'rfft', 'irfftn': 'irfft'}.get(name)
    if base is None:
        raise Unsupported('fft function ' + name)
    o = obj(a)
    if sizes is None:
        sizes = [o.shape[x] for x in axes]
        if base == 'irfft':
            sizes[-1] = 2 * (sizes[-1] - 1)
    sizes = [int(n) if n != -1 else o.shape[x] for n, x in zip(sizes, axes)]
    if base == 'irfft':
        for x, n in zip(axes[:-1], sizes[:-1]):
            o = _resize(o, x, n)
        if len(axes) > 1:
            o = poly.fft_axes(o, axes[:-1], True)
        res = _irfft1(o, axes[-1], sizes[-1])
        dt = real_of(a._dt)
    else:
        if base == 'rfft' and a._dt.kind == 'c':
            raise TypeError('complex input to rfft')
        for x, n in zip(axes, sizes):
            if n != o.shape[x]:
                o = _resize(o, x, n)
        res = poly.fft_axes(o, axes, base == 'ifft')
        dt = cplx_of(a._dt)
        if base == 'rfft':
            res = _resize(res, axes[-1], sizes[-1] // 2 + 1)
    tot = int(np.prod(sizes))
    inv_ = base in ('ifft', 'irfft')
    if norm == 'forward':
        res = _map((lambda z: lift(z) * tot) if inv_ else (lambda z: lift(z) / tot), res)
    elif norm == 'ortho':
        q = lift(tot).sqrt()
        res = _map((lambda z: lift(z) * q) if inv_ else (lambda z: lift(z) / q), res)
    return SymArray(res, dt)


class _ScipyBackend:
    __ua_domain__ = 'numpy.scipy.fft'

    @staticmethod
    def __ua_function__(method, args, kwargs):
        a = args[0] if args else kwargs.get('x')
        if isinstance(a, SymArray):
            return sym_fft(method.__name__, args, kwargs)
        return NotImplemented


scipy.fft.register_backend(_ScipyBackend)


def install_numpy_constructors():
    """np.zeros/empty/ones called from kymatio code while a symbolic job runs give symbolic arrays"""
    if getattr(np, '_vk_patched', False):
        return
    np._vk_patched = True

    def mkc(orig, val):
        def f(shape, dtype=float, *a, **k):
            g = sys._getframe(1).f_globals.get('__name__', '')
            if SYMBOLIC[0] and g.startswith('kymatio'):
                dt = np.dtype(dtype)
                if dt.kind in 'fc':
                    o = np.ndarray(shape, dtype=object)
                    o[...] = lift(val)
                    return SymArray(o, dt)
            return orig(shape, dtype, *a, **k)
        return f
    np.zeros = mkc(np.zeros, 0)
    np.ones = mkc(np.ones, 1)
    np.empty = mkc(np.empty, 0)
    oasarray, oarray = np.asarray, np.array

    def arr(orig):
        def f(a, dtype=None, *r, **k):
            if isinstance(a, SymArray):
                if dtype is None or np.dtype(dtype) == a._dt:
                    return a.copy() if orig is oarray and k.get('copy', True) else a
                return a.astype(dtype)
            if isinstance(a, (list, tuple)) and a and all(isinstance(x, (SymArray, Z)) for x in a):
                dts = [_dt_of(x) for x in a]
                st = np.empty(len(a), dtype=object)
                els = [obj(x) for x in a]
                if all(e.shape == els[0].shape for e in els):
                    o = np.stack(els)
                    return SymArray(o, dtype or _result('add', dts))
            if isinstance(a, (list, tuple)) and a and isinstance(a[0], (list, tuple)) and _hasZ(a):
                rows = [f(x) for x in a]
                o = np.stack([obj(x) for x in rows])
                return SymArray(o, dtype or _result('add', [_dt_of(x) for x in rows]))
            if isinstance(a, (list, tuple)) and a and any(isinstance(x, Z) for x in a) and all(isinstance(x, (Z, int, float, complex, np.generic)) for x in a):
                o = np.empty(len(a), dtype=object)
                o[:] = [lift(x) for x in a]
                return SymArray(o, dtype or _result('add', [_dt_of(x) for x in a]))
            return orig(a, dtype, *r, **k) if dtype is not None else orig(a, *r, **k)
        return f
    np.asarray = arr(oasarray)
    np.array = arr(oarray)
    for nm in ('float32', 'float64'):
        pass


def _hasZ(a):
    return isinstance(a, Z) or isinstance(a, (list, tuple)) and any(_hasZ(x) for x in a)


SYMBOLIC = [False]


def symvar(name, shape, dtype=F64, complex_=False):
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        s = name + '_'.join([''] + [str(k) for k in i])
        if complex_:
            o[i] = poly.var(s + 'r') + poly.var(s + 'i').times_i()
        else:
            o[i] = poly.var(s)
    return SymArray(o, dtype)
