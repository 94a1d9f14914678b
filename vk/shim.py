"""Imports the code under test from /repo and makes its numpy/math/int/isinstance understand symbolic values.

Nothing in /repo is edited: the shim replaces module globals of the imported kymatio modules by proxies
which behave identically on concrete values."""
import os
import sys
import math
import types
import importlib
import warnings

REPO = os.environ.get('VK_REPO', '/repo')


def setup():
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    os.environ.setdefault('JAX_ENABLE_X64', 'True')
    os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
    sys.dont_write_bytecode = True
    warnings.filterwarnings('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


setup()
import numpy as np
from . import symarr, poly, engine
from .symarr import SymArray, SYMBOLIC
from .poly import Z, lift
from .engine import SInt, SPow2, SLog2, SBool

symarr.install_numpy_constructors()


class _TypeProxyMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._t)

    def __eq__(cls, o):
        return o is cls or o == cls._t
    __hash__ = type.__hash__

    def __call__(cls, x=0, *a):
        if isinstance(x, SymArray):
            return symarr.cast(x, np.dtype(cls._t)) if np.dtype(cls._t).kind == 'c' or x._dt.kind != 'c' \
                else symarr.cast(x, np.dtype(cls._t))
        if isinstance(x, (Z, SInt)):
            return lift(x)
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], (SymArray, Z)):
            return symarr.cast(np.array(x), np.dtype(cls._t))
        return cls._t(x, *a)

    def __getattr__(cls, k):
        return getattr(cls._t, k)


def _tp(t):
    c = _TypeProxyMeta('vk_' + t.__name__, (), {'_t': t})
    type.__setattr__(c, 'dtype', np.dtype(t))
    return c


class NpProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        for t in (np.float32, np.float64, np.complex64, np.complex128):
            self.__dict__[t.__name__] = _tp(t)
        self.__dict__['log2'] = _np_log2
        self.__dict__['floor'] = _np_floor
        self.__dict__['ceil'] = _np_ceil
        self.__dict__['arange'] = _np_arange

    def __getattr__(self, k):
        return getattr(np, k)


def _conc(x):
    return x.__index__() if isinstance(x, (SInt, SPow2)) else x


def _np_arange(*a, **k):
    return np.arange(*[_conc(x) for x in a], **k)


def _np_log2(x, *a, **k):
    if isinstance(x, (SInt, Z)):
        return SLog2(lift(x))
    if isinstance(x, SPow2):
        return x.exp
    return np.log2(x, *a, **k)


def _np_floor(x, *a, **k):
    if isinstance(x, (SLog2, SInt, Z)):
        return x.__floor__()
    return np.floor(x, *a, **k)


def _np_ceil(x, *a, **k):
    if isinstance(x, (SLog2, SInt, Z)):
        return x.__ceil__()
    return np.ceil(x, *a, **k)


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, k):
        return getattr(math, k)

    @staticmethod
    def log2(x):
        if isinstance(x, (SInt, Z)):
            return SLog2(lift(x))
        if isinstance(x, SPow2):
            return x.exp
        return math.log2(x)

    @staticmethod
    def floor(x):
        return x.__floor__() if hasattr(x, '__floor__') else math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if hasattr(x, '__ceil__') else math.ceil(x)

    @staticmethod
    def log(x, *b):
        if isinstance(x, (SInt, SPow2)):
            if b and _conc(b[0]) == 2:
                return MathProxy.log2(x)
            x = _conc(x)
        if isinstance(x, Z) and not b:
            return x.log()
        return math.log(x, *b)

    @staticmethod
    def sqrt(x):
        if isinstance(x, (SInt, Z)):
            return lift(x).sqrt()
        return math.sqrt(x)

    @staticmethod
    def pow(x, y):
        if isinstance(y, (SInt, SPow2)):
            y = _conc(y)
        if isinstance(x, (SInt, SPow2, Z)):
            return lift(x) ** y
        if isinstance(y, Z):
            y = float(y)
        return math.pow(x, y)

    @staticmethod
    def fabs(x):
        return abs(x) if isinstance(x, (SInt, Z)) else math.fabs(x)

    @staticmethod
    def exp(x):
        if isinstance(x, Z):
            return x.exp()
        return math.exp(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SInt, SPow2))

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, (SInt, SPow2)):
            return x
        if isinstance(x, SLog2):
            return x.__int__()
        if isinstance(x, Z) and x.as_fraction() is None:
            return x.__floor__() if x >= 0 else x.__ceil__()
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int
    __hash__ = type.__hash__

    def __getattr__(cls, k):
        return getattr(int, k)


class vk_int(metaclass=_IntMeta):
    pass


def vk_range(*a):
    return range(*[_conc(x) for x in a])


NP = NpProxy()
MATH = MathProxy()


def patch_module(m, ints=True):
    d = m.__dict__
    for k, v in list(d.items()):
        if v is np:
            d[k] = NP
        elif v is math:
            d[k] = MATH
        elif isinstance(v, type) and getattr(v, '__module__', '').startswith('kymatio'):
            for ck, cv in list(vars(v).items()):
                if cv is np:
                    setattr(v, ck, NP)
        elif v is math.log2 or v is math.floor or v is math.ceil or v is math.sqrt:
            d[k] = getattr(MATH, v.__name__)
        elif v is np.log2:
            d[k] = _np_log2
    if ints:
        d['int'] = vk_int
        d['range'] = vk_range


_done = set()


def load(*names, ints=False):
    """import kymatio modules (from REPO) and patch everything of kymatio that came in"""
    ms = [importlib.import_module(n) for n in names]
    for k, m in list(sys.modules.items()):
        if (k == 'kymatio' or k.startswith('kymatio.')) and m is not None:
            if (k, ints) not in _done:
                _done.add((k, ints))
                patch_module(m, ints)
            f = getattr(m, '__file__', '') or ''
            if not f.startswith(REPO.rstrip('/') + '/'):
                raise RuntimeError('kymatio was not imported from %s but from %s' % (REPO, f))
    return ms[0] if len(ms) == 1 else ms or None


PRELOAD = ['kymatio.scattering%dd.%s' % (d, m) for d in (1, 2, 3)
           for m in ('frontend.base_frontend', 'frontend.numpy_frontend', 'filter_bank', 'utils')]
_pre = []


def preload():
    """modules that a harness imports lazily must be patched before the first path, or the paths would differ"""
    if not _pre:
        _pre.append(1)
        for n in PRELOAD:
            try:
                importlib.import_module(n)
            except Exception:       # shows up where the harness itself imports it
                pass


class symbolic:
    """with symbolic(): the patched modules build symbolic arrays"""
    def __init__(self, ints=False):
        self.ints = ints

    def __enter__(self):
        preload()
        load(ints=self.ints)
        self.old = SYMBOLIC[0]
        SYMBOLIC[0] = True

    def __exit__(self, *a):
        SYMBOLIC[0] = self.old


class concrete:
    """with concrete(): a part of a symbolic run that works on plain numbers only (metadata)"""

    def __enter__(self):
        self.old = SYMBOLIC[0]
        SYMBOLIC[0] = False

    def __exit__(self, *a):
        SYMBOLIC[0] = self.old
