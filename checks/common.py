"""Things shared by the checks."""
import numpy as np
from vk import shim, poly, symarr, drv as D, equal, prove
from vk.poly import lift, Unsupported, C
from vk.symarr import SymArray, obj
from vk.equal import In, check_equal, check_rel

BACKENDS = ('numpy', 'torch', 'tensorflow', 'jax')
TECH = 'solver-based symbolic execution of the real code (symbolic arrays / traced IR, z3)'
ASSUME = [
    'real arithmetic: floating-point rounding is outside the encoding (replays use tolerances)',
    'numpy/torch/tensorflow/jax structural primitives (indexing, padding, reshape) follow their documented semantics; '
    'each encoding is validated by evaluating it on concrete inputs against the real run',
]


def job(mod, fn, cost=1, tag=None, limit=300, **params):
    return dict(mod=mod, fn=fn, params=params, cost=cost, tag=tag, limit=limit)


def backend_class(dim, name):
    m = {'1d': 'scattering1d', '2d': 'scattering2d', '3d': 'scattering3d'}[dim]
    return shim.load('kymatio.%s.backend.%s_backend' % (m, name)).backend


def is_sym(x):
    return isinstance(x, SymArray)


def dft(x, axes, inverse=False):
    """naive discrete Fourier sums: the specification of the transforms"""
    if not is_sym(x):
        return np.fft.ifftn(x, axes=axes) if inverse else np.fft.fftn(x, axes=axes)
    o = obj(x)
    for ax in axes:
        o = np.moveaxis(o, ax, -1)
        N = o.shape[-1]
        if C.n % N:
            raise Unsupported('root')
        st = C.n // N
        new = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape[:-1]):
            for k in range(N):
                acc = lift(0)
                for t in range(N):
                    acc = acc + lift(o[i + (t,)]).rot((st * k * t if inverse else -st * k * t) % C.n)
                new[i + (k,)] = acc / N if inverse else acc
        o = np.moveaxis(new, -1, ax)
    return SymArray(o, np.dtype('complex128'))


def unity(*sizes):
    """order of the root of unity needed for exact transforms of these sizes"""
    n = 4
    for s in sizes:
        n = int(np.lcm(n, s))
    return n


def generic(shape, seed, cplx=False, den=8, lo=1, hi=16):
    """generic dyadic values, exactly representable everywhere, no two equal patterns"""
    rs = np.random.RandomState(seed)
    v = rs.randint(lo, hi, size=shape) * (1 - 2 * rs.randint(0, 2, size=shape)) / den
    if cplx:
        w = rs.randint(lo, hi, size=shape) * (1 - 2 * rs.randint(0, 2, size=shape)) / den
        return v + 1j * w
    return v
