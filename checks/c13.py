from .symint import *
from .casc import FRONT
ASSUMPTIONS = ASSUME + ['the mirror extension itself is the subject of C14; here the amounts are symbolic']


class PadRec:
    def __init__(self):
        self.args = None

    def Pad(self, *a, **k):
        ps = k.get('pad_size', a[0] if a else None)
        self.args = (ps, k.get('input_size', a[1] if len(a) > 1 else None))
        return lambda x: x

    def unpad(self, x):
        return x

from .jcore import conj, disj, neg


def build(J, M, N, pre_pad=False):
    from kymatio.scattering2d.frontend.base_frontend import ScatteringBase2D
    b = PadRec()
    S = ScatteringBase2D(J, (M, N), 8, 2, pre_pad, b)
    S.build()
    return S, b


def grid(r, J, lo, hi, what):
    """what: 'ok' for admissible sizes, 'small' for refused ones"""
    key = '2D geometry J=%d %s' % (J, 'sizes up to %d' % hi if what == 'ok' else 'images smaller than 2**J')
    r.bound('every size %d <= M, N <= %d, J=%d' % (lo, hi, J))
    s = 2 ** J

    def body(v):
        M, N = v['M'], v['N']
        S, b = build(J, M, N)
        out = []
        if what == 'small':
            return [('refused', False)]
        ps, isz = b.args
        for nm, X, P, l, q in (('rows', M, S._M_padded, ps[0], ps[1]), ('columns', N, S._N_padded, ps[2], ps[3])):
            o = P // s - 2
            out += [(nm + ': padded size is a multiple of 2**J', P % s == 0), (nm + ': the sides add up', l + X + q == P),
                    (nm + ': left padding at least 2**J/2', 2 * l >= s), (nm + ': right padding at least 2**J/2', 2 * q >= s),
                    (nm + ': left padding at most the size', l <= X), (nm + ': right padding at most the size', q <= X),
                    (nm + ': sides differ by at most one', abs(l - q) <= 1),
                    (nm + ': output size is floor(size/2**J)', o == X // s), (nm + ': not empty', o >= 1),
                    (nm + ': first output inside the image', (s - l >= 0)),
                    (nm + ': last output inside the image', o * s - l <= X - 1)]
        # both axes alike: an odd pixel of padding goes to the same side of rows and of columns
        out += [('equal sizes are padded alike on both axes', disj(neg(M == N), conj(ps[0] == ps[2], ps[1] == ps[3])))]
        out += [('input size handed to the padding', (isz is None) or ((isz[0] == M) & (isz[1] == N) if not isinstance(
            isz[0] == M, bool) else isz[0] == M and isz[1] == N))]
        Q, _ = build(J, M, N, True)
        out += [('pre-padded rows', Q._M_padded == S._M_padded), ('pre-padded columns', Q._N_padded == S._N_padded)]
        return out

    def refuse(v, e):
        if what == 'small':
            return isinstance(e, (RuntimeError, ValueError))
        return False
    if what == 'ok':
        asm = lambda v: [v['M'] >= lo, v['M'] <= hi, v['N'] >= lo, v['N'] <= hi]
        smp = [dict(M=a, N=b) for a, b in ((s, s), (s + 1, 3 * s), (2 * s - 1, 5 * s + 3))]
    else:
        # at least one side too small
        asm = lambda v: [v['M'] >= 1, v['N'] >= 1, v['M'] <= hi, v['N'] <= hi, SBool(z3.Or(z3.Int('M') < s, z3.Int('N') < s))]
        smp = [dict(M=s - 1, N=s), dict(M=s, N=s - 1), dict(M=1, N=1)]
    explore(r, key, body, ['M', 'N'], asm, refuse=refuse, bounds=dict(M=(0, hi), N=(0, hi)), sample=smp)


class Accepted(Exception):
    pass


class Fake:
    """an input of which only the shape is known"""

    def __init__(self, shape):
        self.shape = shape
        self.ndim = len(shape)

    def is_contiguous(self, *a):
        return True

    def reshape(self, *a, **k):
        raise Accepted()
    view = reshape


def fake(backend, shape):
    if backend == 'torch':
        import torch

        class FT(torch.Tensor):
            @property
            def shape(self):
                return self._vk
            def size(self, *a):
                return self._vk[a[0]] if a else self._vk
            def is_contiguous(self, *a, **k): return True
            def reshape(self, *a, **k): raise Accepted()
            view = reshape

        t = torch.zeros(1).as_subclass(FT)
        t._vk = tuple(shape)
        return t
    if backend == 'numpy':
        class FA(np.ndarray):
            shape = property(lambda self: self._vk)
            ndim = property(lambda self: len(self._vk))
            def reshape(self, *a, **k): raise Accepted()

        t = np.zeros(1).view(FA)
        t._vk = tuple(shape)
        return t
    return Fake(tuple(shape))


class TFProxy:
    def __init__(self, tf):
        self._tf = tf

    def __getattr__(self, k):
        return getattr(self._tf, k)

    def convert_to_tensor(self, x, *a, **k):
        return x if isinstance(x, Fake) else self._tf.convert_to_tensor(x, *a, **k)

    def is_tensor(self, x):
        return isinstance(x, Fake) or self._tf.is_tensor(x)

    def reshape(self, x, *a, **k):
        if isinstance(x, Fake):
            raise Accepted()
        return self._tf.reshape(x, *a, **k)

    def shape(self, x, *a, **k):
        if isinstance(x, Fake):
            raise Accepted()
        return self._tf.shape(x, *a, **k)


def real_input(backend, shape):
    x = np.zeros(shape, dtype=np.float32)
    if backend == 'torch':
        import torch
        return torch.from_numpy(x)
    if backend == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(x)
    return x


def with_tf(backend, fn):
    if backend != 'tensorflow':
        return fn()
    import tensorflow as tf
    undo = []
    p = TFProxy(tf)
    for k, m in list(sys.modules.items()):
        if m is not None and k.startswith('kymatio') and vars(m).get('tf') is tf:
            undo.append(m)
            m.tf = p
    try:
        return fn()
    finally:
        for m in undo:
            m.tf = tf


def refusal(r, backend, J, shape, pre_pad, hi=1000):
    """inputs whose last two sizes are not the declared ones are refused, the declared ones accepted"""
    cls = getattr(shim.load(FRONT[backend]), 'Scattering2D')
    S = cls(J=J, shape=shape, L=1, pre_pad=pre_pad)
    s = 2 ** J
    want = tuple((m // s + 2) * s for m in shape) if pre_pad else shape
    key = '2D %s input size J=%d shape=%s pre_pad=%s' % (backend, J, shape, pre_pad)
    r.bound(key + ': every input size 1..%d in both dimensions, with 0, 1 and 2 batch axes' % hi)
    for batch in ((), (2,), (1, 3)):
        def body(v):
            try:
                if isinstance(v['h'], SInt):
                    with_tf(backend, lambda: S.scattering(fake(backend, batch + (v['h'], v['w']))))
                else:
                    S.scattering(real_input(backend, batch + (v['h'], v['w'])))
                got = True
            except Accepted:
                got = True
            except (RuntimeError, ValueError, TypeError) as e:
                got = False
            same = (v['h'] == want[0]) & (v['w'] == want[1]) if isinstance(v['h'], SInt) else (v['h'], v['w']) == tuple(want)
            return [('accepted exactly when the size is right', same if got else ~same if isinstance(same, SBool) else not same)]
        explore(r, key + ' batch %s' % (batch,), body, ['h', 'w'], lambda v: [v['h'] >= 1, v['w'] >= 1, v['h'] <= hi, v['w'] <= hi],
                bounds=dict(h=(0, hi), w=(0, hi)), sample=[dict(h=want[0], w=want[1]), dict(h=want[1] + 1, w=want[0]), dict(h=shape[0], w=shape[1] + 1)])


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = []
    for J in range(1, 15 if deep else 12):
        out.append(job('checks.c13', 'grid', 5, J=J, lo=2 ** J, hi=2 ** 12 if q else 2 ** (20 if deep else 16), what='ok', limit=800))
        out.append(job('checks.c13', 'grid', 2, J=J, lo=1, hi=2 ** 12, what='small', limit=800))
    for b in BACKENDS:
        for J, shape in ((1, (3, 4)), (2, (4, 7))) + (() if q else ((2, (9, 5)), (3, (8, 8))) + (((4, (17, 20)), (3, (13, 9))) if deep else ())):
            for pp in (False, True):
                out.append(job('checks.c13', 'refusal', 3, b, backend=b, J=J, shape=shape, pre_pad=pp, limit=800))
    return out
