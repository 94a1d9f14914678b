"""A backend whose arrays are abstract: it records resolution, permitted subsampling, domain and history of every signal
and turns the requirements of each operation into conditions over (symbolic) scales."""
from .symint import *


def log2k(k):
    if isinstance(k, SPow2):
        return k.exp
    if isinstance(k, (int, np.integer)) and k >= 1 and k & (k - 1) == 0:
        return int(k).bit_length() - 1
    if isinstance(k, float) and k.is_integer() and k >= 1:
        return log2k(int(k))
    raise BadOp('subsampling by %r' % (k,))


class BadOp(Exception):
    pass


def le(a, b):
    return a <= b


def _opaque(*names):
    def mk(n):
        def f(self, *a, **k):
            raise Unsupported('%s of a recorded %s' % (n, type(self).__name__))
        return f
    return {n: mk(n) for n in names}


class Opaque:
    """what the recorders do not model must stop the exploration (inconclusive), not look like an error of the code"""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('attribute %s of a recorded %s' % (k, type(self).__name__))


for _n, _f in _opaque('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__pow__', '__neg__', '__abs__',
                      '__getitem__', '__setitem__', '__iter__', '__len__', '__matmul__', '__lt__', '__le__', '__gt__', '__ge__', '__array__').items():
    setattr(Opaque, _n, _f)


class Flt(Opaque):
    def __init__(self, name, level, lim, which):
        self.name, self.level, self.lim, self.which = name, level, lim, which


class Levels(Opaque):
    """the versions of a filter at the different resolutions"""

    def __init__(self, rec, name, lim, provided):
        self.rec, self.name, self.lim, self.provided = rec, name, lim, provided

    def __getitem__(self, l):
        self.rec.cond('filter %s requested at a resolution that is provided' % (self.name,), self.provided(l))
        return Flt(self.name, l, self.lim, None)

    def __len__(self):
        raise Unsupported('len of levels')


class Sig(Opaque):
    def __init__(self, axes, res, lim, dom, real, hist):
        self.axes, self.res, self.lim, self.dom, self.real, self.hist = axes, res, lim, dom, real, hist

    def but(self, **k):
        d = dict(axes=self.axes, res=self.res, lim=self.lim, dom=self.dom, real=self.real, hist=self.hist)
        d.update(k)
        return Sig(**d)

    def setr(self, **k):
        return {**self.res, **{self.axes[-1]: k['res']}} if 'res' in k else self.res


class Rec:
    """recording backend"""

    def __init__(self, multi=False):
        self.conds = []
        self.ops = 0
        self.multi = multi

    def cond(self, label, c):
        self.conds.append((label, c))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('backend operation %s' % k)

    def _t(self, x, op):
        if not isinstance(x, Sig) or x.dom != 't':
            raise BadOp(op + ' of something that is not a signal')

    def rfft(self, x):
        self._t(x, 'rfft')
        if not x.real:
            raise BadOp('rfft of a complex signal')
        return x.but(dom='f', real=False)

    def cfft(self, x):
        self._t(x, 'cfft')
        return x.but(dom='f', real=False)

    def ifft(self, x):
        if not isinstance(x, Sig) or x.dom != 'f':
            raise BadOp('inverse transform of something that is not a spectrum')
        return x.but(dom='t', real=False)

    def irfft(self, x):
        y = self.ifft(x)
        # the real part of a complex signal is not the signal: only low-pass filtered real signals qualify
        if not (y.hist and y.hist[-1][0] == 'filter' and y.hist[-1][1] == 'phi') and not self.multi:
            raise BadOp('real inverse transform after a band-pass filter')
        return y.but(real=True)

    def cdgmm(self, x, f):
        if not isinstance(x, Sig) or x.dom != 'f' or not isinstance(f, Flt):
            raise BadOp('product of things that are not a spectrum and a filter')
        self.ops += 1
        a = x.axes[-1]
        self.cond('filter %s at the resolution of the data' % (f.name,), f.level == x.res[a])
        return x.but(lim={**x.lim, a: f.lim}, hist=x.hist + (('filter',) + tuple(f.name if isinstance(f.name, tuple) else (f.name,)),))

    def subsample_fourier(self, x, k):
        if not isinstance(x, Sig) or x.dom != 'f':
            raise BadOp('spectral subsampling of something that is not a spectrum')
        a = x.axes[-1]
        r = x.res[a] + log2k(k)
        self.cond('no subsampling beyond what the filter allows', le(r, x.lim[a]))
        return x.but(res={**x.res, a: r})

    def modulus(self, x):
        self._t(x, 'modulus')
        return x.but(real=True, hist=x.hist + (('modulus',),))

    def average_global(self, x):
        self._t(x, 'global average')
        a = x.axes[-1]
        return x.but(res={**x.res, a: None}, lim={**x.lim, a: None}, hist=x.hist + (('global', a),))

    def stack(self, xs, *a, **k):
        xs = list(xs)
        for y in xs:
            self._t(y, 'stack')
            if y.real != xs[0].real:
                raise BadOp('stack of real and complex signals')
            for ax in y.axes:
                self.cond('stacked signals have the same resolution', y.res[ax] == xs[0].res[ax])
        x = xs[0]
        lim = dict(x.lim)
        return Sig(['freq'] + x.axes, {**x.res, 'freq': 0}, {**lim, 'freq': 0}, 't', x.real,
                   (('stack', tuple(y.hist for y in xs)),))

    def swap_time_frequency(self, x):
        self._t(x, 'swap')
        return x.but(axes=x.axes[:-2] + [x.axes[-1], x.axes[-2]])

    def pad_frequency(self, x, n):
        self._t(x, 'pad')
        if x.axes[-1] != 'freq':
            raise BadOp('frequency padding of the time axis')
        self.cond('frequency padding is not negative', n >= 0)
        return x.but(hist=x.hist + (('pad', n),))

    def unpad_frequency(self, x, n1_max, n1_stride):
        if x.res['freq'] is None:
            return x.but(hist=x.hist + (('crop', n1_max, n1_stride),))
        self.cond('frequency cropping at the stride of the data', log2k(n1_stride) == x.res['freq'])
        return x.but(hist=x.hist + (('crop', n1_max, n1_stride),))


def flat(hist):
    """filters applied, in order"""
    return tuple(h[1:] for h in hist if h[0] == 'filter')


def mods(hist):
    return tuple(h[0] if h[0] == 'modulus' else 'f' for h in hist if h[0] in ('modulus', 'filter'))
