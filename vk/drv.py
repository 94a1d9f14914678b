"""Backend drivers: run a real kymatio function concretely or symbolically and return canonical arrays."""
import numpy as np
from . import shim, poly, symarr
from .symarr import SymArray, obj
from .poly import lift, Unsupported


class ImplError(Exception):
    """the code under test raised"""

    def __init__(self, e):
        super().__init__('%s: %s' % (type(e).__name__, e))
        self.orig = e


def flatten(o, isarr):
    leaves = []

    def go(x):
        if isarr(x):
            leaves.append(x)
            return '*'
        if isinstance(x, dict):
            return ('dict', [(go_key(k), go(v)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return ('seq', [go(v) for v in x])
        if isinstance(x, np.ndarray):
            return ('np', x.tolist())
        if isinstance(x, np.generic):
            return x.item()
        return x

    def go_key(k):
        return k
    sk = go(o)
    return sk, leaves


def subst_arrays(args, f):
    return [f(a) if isinstance(a, np.ndarray) else a for a in args]


class NumpyDrv:
    name = 'numpy'
    tol = 1e-8
    f = np.dtype('float64')

    def _leaf(self, x):
        return isinstance(x, np.ndarray) and (isinstance(x, SymArray) or x.dtype.kind in 'fc' or x.dtype == object)

    def native(self, v, kym=True):
        return v

    def sym(self, fn, args, kym=True):
        try:
            with shim.symbolic():
                out = fn(*args)
        except (Unsupported, poly.Unsupported):
            raise
        except Exception as e:
            raise ImplError(e)
        sk, lv = flatten(out, self._leaf)
        return sk, [self._canon(x) for x in lv]

    def _canon(self, x):
        if isinstance(x, SymArray):
            return obj(x)
        return symarr._map(lift, obj(x))

    def conc(self, fn, vals, kym=True):
        try:
            out = fn(*vals)
        except Exception as e:
            raise ImplError(e)
        return flatten(out, lambda x: isinstance(x, np.ndarray) and x.dtype.kind in 'fc')


class TorchDrv:
    name = 'torch'
    tol = 1e-8
    f = np.dtype('float64')

    def __init__(self):
        import torch
        self.torch = torch
        torch.set_num_threads(1)
        from . import ir_torch
        self.ir = ir_torch

    def native(self, v, kym=True):
        v = np.asarray(v)
        if kym:
            if v.dtype.kind == 'c':
                v = np.stack([v.real, v.imag], axis=-1)
            else:
                v = v[..., None]
        return self.torch.from_numpy(np.ascontiguousarray(v))

    def _leaf(self, x):
        return isinstance(x, self.torch.Tensor)

    def sym(self, fn, args, kym=True):
        rs = np.random.RandomState(7)
        arrs = [a for a in args if isinstance(a, np.ndarray)]
        nat = []
        for a in arrs:
            v = np.asarray(rs.randn(*a.shape))
            if a.dtype.kind == 'c':
                v = v + 1j * rs.randn(*a.shape)
            nat.append(self.native(v.astype(a.dtype), kym))
        cap = {}

        def g(*ts):
            it = iter(ts)
            full = [next(it) if isinstance(a, np.ndarray) else a for a in args]
            out = fn(*full)
            sk, lv = flatten(out, self._leaf)
            cap['sk'] = sk
            return list(lv)
        try:
            gm = self.ir.trace(g, *nat)
        except Exception as e:
            raise ImplError(e)
        ins = []
        for a in arrs:
            o = obj(a)
            if kym:
                if a.dtype.kind == 'c':
                    o = self.ir._to_real(o)
                else:
                    o = o[..., None]
            ins.append(o.copy())
        out = self.ir.interpret(gm, ins)
        self.inputs_after = ins
        return cap['sk'], [self._canon(x, kym) for x in out]

    def _canon(self, x, kym):
        if kym:
            if x.shape[-1] == 2:
                return self.ir._to_cplx(x)
            if x.shape[-1] == 1:
                return x[..., 0]
        return x

    def conc(self, fn, vals, kym=True):
        full = [self.native(a, kym) if isinstance(a, np.ndarray) else a for a in vals]
        try:
            out = fn(*full)
        except Exception as e:
            raise ImplError(e)
        sk, lv = flatten(out, self._leaf)
        res = []
        for x in lv:
            x = x.detach().cpu().resolve_conj().numpy()
            if kym:
                if x.shape[-1] == 2:
                    x = x[..., 0] + 1j * x[..., 1]
                elif x.shape[-1] == 1:
                    x = x[..., 0]
            res.append(x)
        return sk, res


class TFDrv:
    name = 'tensorflow'
    tol = 2e-4
    f = np.dtype('float32')

    def __init__(self):
        import tensorflow as tf
        self.tf = tf
        from . import ir_tf
        self.ir = ir_tf

    def native(self, v, kym=True):
        v = np.asarray(v)
        v = v.astype('complex64') if v.dtype.kind == 'c' else v.astype('float32')
        return self.tf.constant(v)

    def _leaf(self, x):
        return self.tf.is_tensor(x)

    def sym(self, fn, args, kym=True):
        tf = self.tf
        arrs = [a for a in args if isinstance(a, np.ndarray)]
        cap = {}

        def g(*ts):
            it = iter(ts)
            full = [next(it) if isinstance(a, np.ndarray) else a for a in args]
            out = fn(*full)
            sk, lv = flatten(out, self._leaf)
            cap['sk'] = sk
            return [tf.identity(x) for x in lv]
        specs = [(a.shape, tf.complex64 if a.dtype.kind == 'c' else tf.float32) for a in arrs]
        try:
            cf = self.ir.trace(g, *specs)
        except Exception as e:
            raise ImplError(e)
        out = self.ir.interpret(cf, [obj(a) for a in arrs])
        return cap['sk'], out

    def conc(self, fn, vals, kym=True):
        full = [self.native(a) if isinstance(a, np.ndarray) else a for a in vals]
        try:
            out = fn(*full)
        except Exception as e:
            raise ImplError(e)
        sk, lv = flatten(out, self._leaf)
        return sk, [x.numpy() for x in lv]


class JaxDrv:
    name = 'jax'
    tol = 1e-8
    f = np.dtype('float64')

    def __init__(self):
        import jax
        jax.config.update('jax_enable_x64', True)
        self.jax = jax
        from . import ir_jax
        self.ir = ir_jax

    def native(self, v, kym=True):
        return self.jax.numpy.asarray(v)

    def _leaf(self, x):
        return isinstance(x, self.jax.Array)

    def sym(self, fn, args, kym=True):
        arrs = [a for a in args if isinstance(a, np.ndarray)]
        cap = {}

        def g(*ts):
            it = iter(ts)
            full = [next(it) if isinstance(a, np.ndarray) else a for a in args]
            out = fn(*full)
            sk, lv = flatten(out, lambda x: isinstance(x, self.jax.Array))
            cap['sk'] = sk
            return list(lv)
        ex = [self.jax.ShapeDtypeStruct(a.shape, a.dtype) for a in arrs]
        try:
            closed = self.ir.trace(g, *ex)
        except Exception as e:
            raise ImplError(e)
        out = self.ir.interpret(closed.jaxpr, [self.ir.const(c) for c in closed.consts], [obj(a) for a in arrs])
        return cap['sk'], out

    def conc(self, fn, vals, kym=True):
        full = [self.native(a) if isinstance(a, np.ndarray) else a for a in vals]
        try:
            out = fn(*full)
        except Exception as e:
            raise ImplError(e)
        sk, lv = flatten(out, self._leaf)
        return sk, [np.asarray(x) for x in lv]


_cache = {}


def get(name):
    if name not in _cache:
        _cache[name] = {'numpy': NumpyDrv, 'torch': TorchDrv, 'tensorflow': TFDrv, 'jax': JaxDrv}[name]()
    return _cache[name]


ALL = ('numpy', 'torch', 'tensorflow', 'jax')
