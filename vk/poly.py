"""Symbolic complex scalars: polynomials over real atoms with coefficients in a cyclotomic field.

A scalar is  (1/den) * sum_k  c_k * zeta^{e_k} * mono_k   with integer c_k, zeta = exp(2 pi i / n) and
mono_k a product of real-valued atoms.  Atoms are input variables or defined terms (square roots,
quotients, opaque Fourier outputs, if-then-else, ...), hash-consed on the normal form of their
definition.  The normal form is the encoding; verdicts are z3's (see prove.py).
"""
from fractions import Fraction
from math import gcd, isqrt
import math
import numpy as np


class Unsupported(Exception):
    """the symbolic machinery cannot represent this operation (inconclusive, never a violation)"""


class Ctx:
    """process-wide state of one symbolic job"""
    n = 4
    red = None
    atoms = []
    table = {}
    explorer = None
    fft_mode = 'opaque'
    ifft_back = {}
    limit_terms = 200000
    expand = False        # products are always expanded
    undef = 0             # 0/0 and x/0 become a free symbol instead of an error


C = Ctx()


def _mkred(n):
    """zeta^e -> list of (e', sign) in the power basis"""
    if n == 1:
        return [((0, 1),)]
    if n == 2:
        return [((0, 1),), ((0, -1),)]
    m = n
    while m % 2 == 0:
        m //= 2
    if m not in (1, 3) or n % 4:
        raise Unsupported('root of unity order %d' % n)
    out = []
    for e in range(n):
        s = 1
        if e >= n // 2:
            e -= n // 2
            s = -1
        if m == 1:
            out.append(((e, s),))
        else:
            if e < n // 3:
                out.append(((e, s),))
            else:
                a, b = e - n // 6, e - n // 3
                out.append(((a, s), (b, -s)))
    return out


def reset(n=4, fft_mode='opaque'):
    C.n = n
    C.red = _mkred(n)
    C.atoms = []
    C.table = {}
    C.fft_mode = fft_mode
    C.ifft_back = {}
    C.undef = 0
    C.expand = False
    _zc.clear()


class Atom:
    __slots__ = ('id', 'name', 'kind', 'args', 'nonneg', 'extra')

    def __repr__(self):
        return self.name


_zc = {}


def atom(kind, key, args=(), nonneg=False, name=None, extra=None):
    k = (kind, key)
    i = C.table.get(k)
    if i is None:
        a = Atom()
        a.id = i = len(C.atoms)
        a.kind, a.args, a.nonneg, a.extra = kind, args, nonneg, extra
        a.name = name or '%s%d' % (kind, i)
        C.atoms.append(a)
        C.table[k] = i
    return i


def var(name, nonneg=False):
    return Z({((atom('var', name, (), nonneg, name),), 0): 1}, 1)


def _addto(d, k, v):
    w = d.get(k, 0) + v
    if w:
        d[k] = w
    elif k in d:
        del d[k]


class Z:
    __slots__ = ('t', 'd', '_k')
    __array_priority__ = 1000

    def __init__(self, t, d=1):
        self.t = t
        self.d = d
        self._k = None

    # ---- normal form -------------------------------------------------
    def norm(self):
        d = self.d
        if d != 1:
            g = d
            for v in self.t.values():
                g = gcd(g, v)
                if g == 1:
                    break
            if g > 1:
                self.t = {k: v // g for k, v in self.t.items()}
                self.d = d // g
        return self

    def key(self):
        if self._k is None:
            self.norm()
            self._k = (self.d, tuple(sorted(self.t.items())))
        return self._k

    def same(self, o):
        o = lift(o)
        return self.key() == o.key()

    __hash__ = object.__hash__

    # ---- predicates --------------------------------------------------
    def is_const(self):
        return all(not m for (m, e) in self.t)

    def is_zero(self):
        return not self.t

    def as_fraction(self):
        """exact rational value if this is a rational constant else None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1:
            (m, e), v = next(iter(self.t.items()))
            if not m and e == 0:
                return Fraction(v, self.d)
        return None

    def is_real(self):
        if C.n == 4:
            return all(e == 0 for (m, e) in self.t)
        if all(e == 0 for (m, e) in self.t):
            return True
        return self.same(self.conjugate())

    # ---- ring ops ----------------------------------------------------
    def __neg__(self):
        return Z({k: -v for k, v in self.t.items()}, self.d)

    def __pos__(self):
        return self

    def __add__(self, o):
        if not isinstance(o, Z):
            o = lift(o)
            if o is NotImplemented:
                return o
        if not o.t:
            return self
        if not self.t:
            return o
        d1, d2 = self.d, o.d
        if d1 == d2:
            a, b, L = 1, 1, d1
        else:
            g = gcd(d1, d2)
            a, b, L = d2 // g, d1 // g, d1 // g * d2
        if len(o.t) > len(self.t):
            x, ax, y, ay = o.t, b, self.t, a
        else:
            x, ax, y, ay = self.t, a, o.t, b
        r = dict(x) if ax == 1 else {k: v * ax for k, v in x.items()}
        for k, v in y.items():
            w = r.get(k)
            if w is None:
                r[k] = v * ay
            else:
                w += v * ay
                if w:
                    r[k] = w
                else:
                    del r[k]
        return Z(r, L)

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, Z):
            o = lift(o)
            if o is NotImplemented:
                return o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, f):
        """times a Fraction/int"""
        if f == 0:
            return ZERO()
        f = Fraction(f)
        p, q = f.numerator, f.denominator
        if p == 1 and q == 1:
            return self
        return Z({k: v * p for k, v in self.t.items()} if p != 1 else dict(self.t), self.d * q).norm()

    def rot(self, e):
        """times zeta^e"""
        n = C.n
        e %= n
        if e == 0:
            return self
        red = C.red
        r = {}
        for (m, f), v in self.t.items():
            for g, s in red[(e + f) % n]:
                _addto(r, (m, g), v * s)
        return Z(r, self.d)

    def __mul__(self, o):
        if not isinstance(o, Z):
            o = lift(o)
            if o is NotImplemented:
                return o
        a, b = self, o
        if not a.t or not b.t:
            if C.undef and (_undefined(a) or _undefined(b)):
                return undefined()
            return ZERO()
        f = b.as_fraction()
        if f is not None:
            return a.scale(f)
        f = a.as_fraction()
        if f is not None:
            return b.scale(f)
        ca, cb = a.is_const(), b.is_const()
        if not C.expand and not (ca or cb) and len(a.t) > 1 and len(b.t) > 1 and len(a.t) * len(b.t) > 64:
            # lazy product: canonical on primitive parts
            if a.is_real() and b.is_real():
                return _lazy(a, b)
            ar, ai, br, bi = a.real, a.imag, b.real, b.imag
            return (_lz(ar, br) - _lz(ai, bi)) + (_lz(ar, bi) + _lz(ai, br)).times_i()
        red, n = C.red, C.n
        r = {}
        subst = None
        for (m1, e1), v1 in a.t.items():
            for (m2, e2), v2 in b.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    m = tuple(sorted(m1 + m2))
                    s = _reducible(m)
                    if s is not None:
                        subst = subst or []
                        subst.append((m, s, (e1 + e2) % n, v1 * v2))
                        continue
                e = e1 + e2
                if e == 0:
                    _addto(r, (m, 0), v1 * v2)
                else:
                    for g, s in red[e % n]:
                        _addto(r, (m, g), v1 * v2 * s)
        if len(r) > C.limit_terms:
            raise Unsupported('polynomial too large')
        z = Z(r, a.d * b.d)
        if subst:
            for m, s, e, v in subst:
                i, rep = s
                rest = list(m)
                rest.remove(i[0])
                rest.remove(i[1])
                w = Z({(tuple(rest), 0): v}, a.d * b.d) * rep
                z = z + (w.rot(e) if e else w)
        return z.norm()

    __rmul__ = __mul__

    def times_i(self):
        return self.rot(C.n // 4)

    def conjugate(self):
        n, red = C.n, C.red
        r = {}
        for (m, e), v in self.t.items():
            if e == 0:
                _addto(r, (m, 0), v)
            else:
                for g, s in red[(-e) % n]:
                    _addto(r, (m, g), v * s)
        return Z(r, self.d)

    conj = conjugate

    @property
    def real(self):
        if all(e == 0 for (m, e) in self.t):
            return self
        if C.n == 4:
            return Z({k: v for k, v in self.t.items() if k[1] == 0}, self.d)
        return (self + self.conjugate()).scale(Fraction(1, 2))

    @property
    def imag(self):
        if all(e == 0 for (m, e) in self.t):
            return ZERO()
        if C.n == 4:
            return Z({(m, 0): v for (m, e), v in self.t.items() if e == 1}, self.d)
        return (self - self.conjugate()).scale(Fraction(1, 2)).rot(-(C.n // 4))

    # ---- division, powers, roots ------------------------------------
    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        f = o.as_fraction()
        if f is not None:
            if f == 0:
                if C.undef:
                    return undefined()
                raise Unsupported('division by the constant zero')
            return self.scale(1 / f)
        return self * inv(o)

    def __rtruediv__(self, o):
        return lift(o) / self

    def __rpow__(self, b):
        f = self.as_fraction()
        if f is not None:
            return lift(b) ** f
        return b ** float(self)

    def __pow__(self, q):
        if isinstance(q, Z):
            f = q.as_fraction()
            if f is None:
                raise Unsupported('symbolic exponent')
            q = f
        q = Fraction(q)
        if q.denominator == 1:
            k = int(q)
            if k < 0:
                return inv(self ** (-k))
            r = lift(1)
            b = self
            while k:
                if k & 1:
                    r = r * b
                k >>= 1
                if k:
                    b = b * b
            return r
        if q.denominator == 2:
            s = self.sqrt()
            return s ** int(q.numerator)
        if not self.is_real():
            raise Unsupported('fractional power of a complex value')
        c = self.as_fraction()
        if c is not None and c in (0, 1):
            return lift(c)
        return Z({((atom('pow', (self.key(), q), (self,), True, extra=q),), 0): 1})

    def sqrt(self):
        if not self.is_real():
            raise Unsupported('sqrt of a complex value')
        if not self.t:
            return ZERO()
        c, m, p = primitive(self)
        if c < 0:
            # sign normalisation inside primitive() may flip: keep sign inside
            c, p = -c, -p
        # pull squares out of the monomial
        out = lift(1)
        keep = []
        cnt = {}
        for i in m:
            cnt[i] = cnt.get(i, 0) + 1
        for i, k in cnt.items():
            h = k // 2
            if h:
                b = Z({((i,), 0): 1})
                out = out * (b if C.atoms[i].nonneg else b.rabs()) ** h
            if k % 2:
                keep.append(i)
        num, den = c.numerator, c.denominator
        # c = (a/b)^2 * r/s with r,s squarefree by trial over small primes
        an, rn = _sqfree(num)
        ad, rd = _sqfree(den)
        out = out.scale(Fraction(an, ad * rd))
        inner = p.scale(rn * rd)
        if keep:
            inner = inner * Z({(tuple(sorted(keep)), 0): 1})
        f = inner.as_fraction()
        if f is not None:
            if f == 1:
                return out
            if f < 0:
                raise Unsupported('square root of a negative constant')
        return out * Z({((atom('sqrt', inner.key(), (inner,), True),), 0): 1})

    def rabs(self):
        """|x| for a real scalar"""
        f = self.as_fraction()
        if f is not None:
            return lift(abs(f))
        c, m, p = primitive(self)
        out = lift(abs(c))
        rest = []
        for i in m:
            if C.atoms[i].nonneg:
                out = out * Z({((i,), 0): 1})
            else:
                rest.append(i)
        if rest:
            p = p * Z({(tuple(sorted(rest)), 0): 1})
        if p.as_fraction() is not None:
            return out
        if nonneg(p):
            return out * p
        if nonneg(-p):
            return out * (-p)
        return out * Z({((atom('abs', p.key(), (p,), True),), 0): 1})

    def __abs__(self):
        if not self.t:
            return ZERO()
        if self.is_real():
            return self.rabs()
        r, i = self.real, self.imag
        if not r.t:
            return i.rabs()
        return (r * r + i * i).sqrt()

    def exp(self):
        if not self.t:
            return lift(1)
        if not self.is_real():
            re, im = self.real, self.imag
            return re.exp() * (im.cos() + im.sin().times_i())
        return Z({((atom('exp', self.key(), (self,), True),), 0): 1})

    # ---- comparisons -------------------------------------------------
    def _cmp(self, o, op):
        from .engine import SBool
        o = lift(o)
        if o is NotImplemented:
            return o
        d = self - o
        f = d.as_fraction()
        if f is not None:
            return {'<': f < 0, '<=': f <= 0, '==': f == 0, '!=': f != 0, '>': f > 0, '>=': f >= 0}[op]
        if not d.t:
            return op in ('<=', '==', '>=')
        return SBool(poly=(op, d))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        f = self.as_fraction()
        if f is None:
            ids = {i for m, e in self.t for i in m}
            if C.explorer is None or any(e for m, e in self.t) or not all(_intdef(i) for i in ids):
                raise Unsupported('float() of a symbolic value')
            memo = {}
            f = Fraction(0)
            for (m, e), v in self.t.items():
                w = Fraction(v, self.d)
                for i in m:
                    w *= _intval(i, memo)
                f += w
        return float(f)

    def __complex__(self):
        if not self.is_const():
            raise Unsupported('complex() of a symbolic value')
        return evalf(self, {})

    def __int__(self):
        f = self.as_fraction()
        if f is None:
            raise Unsupported('int() of a symbolic value')
        return int(f)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from .symarr import SymArray, _ELEM
        if method == '__call__' and uf.nin == 1 and uf.__name__ not in _ELEM:
            if uf.__name__ in ('floor', 'ceil'):
                return self.__floor__() if uf.__name__ == 'floor' else self.__ceil__()
            if uf.__name__ == 'log':
                return self.log()
            if uf.__name__ == 'log2':
                from .engine import SLog2
                return SLog2(self)
            raise Unsupported('ufunc ' + uf.__name__)
        if method == '__call__' and 'out' not in kw:
            r = SymArray.__array_ufunc__(self, uf, method, *inputs, **kw)
            if isinstance(r, np.ndarray) and r.shape == () and not any(isinstance(x, np.ndarray) and x.ndim for x in inputs):
                return np.ndarray.view(r, np.ndarray).item()
            return r
        if method == '__call__':
            return SymArray.__array_ufunc__(self, uf, method, *inputs, **kw)
        return NotImplemented

    def _flo(self):
        """floor of a real value, by branching on the path"""
        f = self.as_fraction()
        if f is not None:
            return math.floor(f)
        if C.explorer is None:
            raise Unsupported('floor of a symbolic value')
        if self >= 0:
            k = 0
            while self >= k + 1:
                k += 1
                if k > 64:
                    raise Unsupported('floor out of the modelled range')
            return k
        k = -1
        while self < k:
            k -= 1
            if k < -64:
                raise Unsupported('floor out of the modelled range')
        return k

    def __floor__(self):
        return self._flo()

    def __ceil__(self):
        f = self.as_fraction()
        if f is not None:
            return math.ceil(f)
        return -((-self)._flo())

    def _trig(self, kind):
        if not self.is_real():
            raise Unsupported('complex ' + kind)
        if not self.t:
            return lift(1) if kind == 'cos' else ZERO()
        a, sg = self, 1
        if a.t[min(a.t)] < 0:             # even/odd
            a, sg = -a, (1 if kind == 'cos' else -1)
        return Z({((atom(kind, a.key(), (a,), False),), 0): sg})

    def cos(self): return self._trig('cos')
    def sin(self): return self._trig('sin')

    def arctan2(self, o):
        o = lift(o)
        if not self.is_real() or not o.is_real():
            raise Unsupported('complex arctan2')
        return Z({((atom('arctan2', (self.key(), o.key()), (self, o), False),), 0): 1})

    def log(self):
        if not self.is_real():
            raise Unsupported('complex logarithm')
        f = self.as_fraction()
        if f is not None:
            if f == 1:
                return ZERO()
            raise Unsupported('logarithm of a constant')
        if len(self.t) == 1 and self.d == 1:
            (m, e), v = next(iter(self.t.items()))
            if len(m) == 1 and e == 0 and v == 1 and C.atoms[m[0]].kind == 'inv':
                return -C.atoms[m[0]].args[0].log()
            if len(m) == 1 and e == 0 and v == 1 and C.atoms[m[0]].kind == 'exp':
                return C.atoms[m[0]].args[0]
        return Z({((atom('log', self.key(), (self,), False),), 0): 1})

    def __repr__(self):
        if not self.t:
            return '0'
        s = []
        for (m, e), v in sorted(self.t.items())[:6]:
            s.append('%+d%s%s' % (v, '' if e == 0 else '.w%d' % e, ''.join('.' + C.atoms[i].name for i in m)))
        if len(self.t) > 6:
            s.append('...(%d terms)' % len(self.t))
        return '(%s)' % ' '.join(s) + ('' if self.d == 1 else '/%d' % self.d)


def ZERO():
    return Z({}, 1)


def _intdef(i):
    """a symbolic integer or a quotient by one"""
    a = C.atoms[i]
    return a.kind == 'int' or a.kind == 'inv' and all(_intdef(k) for m, e in a.args[0].t for k in m)


def _intval(i, memo):
    if i not in memo:
        a = C.atoms[i]
        if a.kind == 'int':
            memo[i] = Fraction(C.explorer.value(a.extra))
        else:
            t = Fraction(0)
            for (m, e), v in a.args[0].t.items():
                w = Fraction(v, a.args[0].d)
                for k in m:
                    w *= _intval(k, memo)
                t += w
            memo[i] = 1 / t
    return memo[i]


def lift(v):
    if isinstance(v, Z):
        return v
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return Z({((), 0): v} if v else {}, 1)
    if isinstance(v, Fraction):
        return Z({((), 0): v.numerator} if v else {}, v.denominator)
    if isinstance(v, (float, np.floating)):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        p, q = v.as_integer_ratio()
        return Z({((), 0): p} if p else {}, q)
    if isinstance(v, (complex, np.complexfloating)):
        r = lift(v.real)
        if v.imag:
            r = r + lift(v.imag).times_i()
        return r
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return lift(v.item())
    zz = getattr(v, '_as_Z', None)
    if zz is not None:
        return zz()
    return NotImplemented


def _sqfree(k):
    a = 1
    p = 2
    while p * p <= k and p < 60:
        while k % (p * p) == 0:
            k //= p * p
            a *= p
        p += 1
    r = isqrt(k)
    if r * r == k and k > 1:
        return a * r, 1
    return a, k


def _reducible(m):
    """if the sorted monomial contains s*s (s a square root), |x|*|x| or v*(1/v): (positions, replacement)"""
    for j in range(len(m) - 1):
        if m[j] == m[j + 1]:
            a = C.atoms[m[j]]
            if a.kind in ('sqrt',):
                return ((m[j], m[j]), a.args[0])
            if a.kind == 'abs':
                return ((m[j], m[j]), a.args[0] * a.args[0])
    for j in m:
        a = C.atoms[j]
        if a.kind == 'inv' and a.extra is not None and a.extra in m:
            return ((j, a.extra), lift(1))
    return None


def primitive(z):
    """z = c * mono * p  with p content-free, leading coefficient positive"""
    z.norm()
    g = 0
    for v in z.t.values():
        g = gcd(g, v)
    lead = min(z.t)
    if z.t[lead] < 0:
        g = -g
    common = None
    for (m, e) in z.t:
        cm = {}
        for i in m:
            cm[i] = cm.get(i, 0) + 1
        if common is None:
            common = cm
        else:
            common = {i: min(k, cm[i]) for i, k in common.items() if i in cm}
        if not common:
            break
    mono = tuple(sorted(sum(([i] * k for i, k in (common or {}).items()), [])))
    if mono and len(z.t) >= 1:
        t = {}
        for (m, e), v in z.t.items():
            r = list(m)
            for i in mono:
                r.remove(i)
            t[(tuple(r), e)] = v // g
        p = Z(t, 1)
    else:
        p = Z({k: v // g for k, v in z.t.items()}, 1)
    return Fraction(g, z.d), mono, p


def nonneg(p):
    """syntactic sufficient condition for p >= 0"""
    for (m, e), v in p.t.items():
        if e or v < 0:
            return False
        cnt = {}
        for i in m:
            cnt[i] = cnt.get(i, 0) + 1
        for i, k in cnt.items():
            if k % 2 and not C.atoms[i].nonneg:
                return False
    return True


def _lazy(a, b):
    ca, ma, pa = primitive(a)
    cb, mb, pb = primitive(b)
    if pa.as_fraction() is not None or pb.as_fraction() is not None or len(pa.t) * len(pb.t) <= 64:
        w = pa * pb
    else:
        ka, kb = pa.key(), pb.key()
        if kb < ka:
            ka, kb, pa, pb = kb, ka, pb, pa
        w = Z({((atom('mul', (ka, kb), (pa, pb), ka == kb),), 0): 1})
    w = w.scale(ca * cb)
    for m in (ma, mb):
        if m:
            w = w * Z({(m, 0): 1})
    return w


def _lz(a, b):
    if not a.t or not b.t:
        return ZERO()
    if len(a.t) * len(b.t) <= 64:
        return a * b
    return _lazy(a, b)


def undefined():
    """a fresh undefined value (0/0, x/0): never equal to anything"""
    C.undef += 1
    return var('undefined%d' % int(C.undef))


def _undefined(z):
    return any(C.atoms[i].name.startswith('undefined') for (m, e) in z.t for i in m)


def inv(z):
    """1/z for a non-constant z (total: the atom is left unconstrained where z = 0)"""
    if C.undef and not z.t:
        return undefined()
    if not z.is_real():
        r, i = z.real, z.imag
        return z.conjugate() * inv(r * r + i * i)
    c, m, p = primitive(z)
    r = lift(1 / c)
    for i in m:
        b = Z({((i,), 0): 1})
        if C.atoms[i].kind == 'inv':      # 1/(1/x) = x wherever 1/x is meant to be defined
            r = r * C.atoms[i].args[0]
            continue
        r = r * Z({((atom('inv', b.key(), (b,), C.atoms[i].nonneg, extra=i),), 0): 1})
    if p.as_fraction() is None:
        ex = None
        if len(p.t) == 1:
            (mm, e), v = next(iter(p.t.items()))
            if len(mm) == 1 and v == 1 and e == 0:
                ex = mm[0]
        r = r * Z({((atom('inv', p.key(), (p,), nonneg(p), extra=ex),), 0): 1})
    return r


def ite(cond, a, b):
    """real or complex if-then-else on a symbolic condition"""
    if isinstance(cond, (bool, np.bool_)):
        return a if cond else b
    a, b = lift(a), lift(b)
    if a.same(b):
        return a
    if a.is_real() and b.is_real():
        return Z({((atom('ite', (cond.key(), a.key(), b.key()), (cond, a, b), nonneg(a) and nonneg(b)),), 0): 1})
    return ite(cond, a.real, b.real) + ite(cond, a.imag, b.imag).times_i()


# ---- Fourier transforms ------------------------------------------------
def _dft_exact(v, sign):
    N = len(v)
    if N == 1:
        return list(v)
    p = next(q for q in (2, 3, 5, 7, 11, 13, N) if N % q == 0)
    if C.n % N:
        raise Unsupported('DFT length %d needs another root of unity' % N)
    M = N // p
    step = C.n // N
    sub = [_dft_exact(v[r::p], sign) for r in range(p)]
    out = []
    for k in range(N):
        acc = sub[0][k % M]
        for r in range(1, p):
            acc = acc + sub[r][k % M].rot(sign * step * r * k)
        out.append(acc)
    return out


def fft_vec(block, inverse):
    """DFT of an n-d block (object ndarray of Z) over all its axes"""
    shape = block.shape
    total = block.size
    flat = [lift(x) for x in block.ravel()]
    if total == 0:
        raise Unsupported('empty transform')
    if C.fft_mode == 'exact':
        arr = np.empty(total, dtype=object)
        for i, z in enumerate(flat):
            arr[i] = z
        arr = arr.reshape(shape)
        for ax in range(len(shape)):
            arr = np.moveaxis(arr, ax, -1)
            sh = arr.shape
            rows = arr.reshape(-1, sh[-1])
            new = np.empty(rows.shape, dtype=object)
            for r in range(rows.shape[0]):
                o = _dft_exact(list(rows[r]), 1 if inverse else -1)
                for c in range(len(o)):
                    new[r, c] = o[c].norm()
            arr = np.moveaxis(new.reshape(sh), -1, ax)
        if inverse:
            out = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                out[i] = arr[i].scale(Fraction(1, total))
            return out
        return arr
    # opaque: linear homogeneity is kept by normalising the content, everything else is uninterpreted
    nz = [z for z in flat if z.t]
    out = np.empty(shape, dtype=object)
    if not nz:
        for i in np.ndindex(*shape):
            out[i] = ZERO()
        return out
    if total == 1:
        out.ravel()[0] = flat[0]
        return out.reshape(shape)
    # content over the whole vector
    L = 1
    for z in nz:
        z.norm()
        L = L * z.d // gcd(L, z.d)
    g = 0
    for z in nz:
        for v in z.t.values():
            g = gcd(g, v * (L // z.d))
    common = None
    for z in nz:
        for (m, e) in z.t:
            cm = {}
            for i in m:
                cm[i] = cm.get(i, 0) + 1
            common = cm if common is None else {i: min(k, cm[i]) for i, k in common.items() if i in cm}
    mono = tuple(sorted(sum(([i] * k for i, k in (common or {}).items()), [])))
    lead = nz[0]
    if lead.t[min(lead.t)] < 0:
        g = -g
    c = Fraction(g, L)
    prim = []
    for z in flat:
        t = {}
        for (m, e), v in z.t.items():
            r = m
            if mono:
                r = list(m)
                for i in mono:
                    r.remove(i)
                r = tuple(r)
            t[(r, e)] = v * (L // z.d) // g
        prim.append(Z(t, 1))
    pkey = tuple(z.key() for z in prim)
    hk = (shape, bool(inverse), pkey)
    back = C.ifft_back.get((shape, not inverse, pkey))
    mz = Z({(mono, 0): 1}) if mono else None
    if back is not None:
        src, factor = back
        for i, z in zip(np.ndindex(*shape), src):
            w = z.scale(c * factor)
            out[i] = w * mz if mz is not None else w
        return out
    vid = atom('fftvec', hk, tuple(prim), extra=(shape, bool(inverse)))
    real_in = all(z.is_real() for z in prim)
    res = []
    for i in np.ndindex(*shape):
        j = tuple((-a) % s for a, s in zip(i, shape))
        if real_in and j < i:
            continue
        re = Z({((atom('fft', (vid, i, 0), (vid,), extra=(i, 0), name='F%d%s.re' % (vid, list(i))),), 0): 1})
        if real_in and j == i:
            w = re
        else:
            im = Z({((atom('fft', (vid, i, 1), (vid,), extra=(i, 1), name='F%d%s.im' % (vid, list(i))),), 0): 1})
            w = re + im.times_i()
        out[i] = w
        if real_in and j != i:
            out[j] = w.conjugate()
    raw = [out[i] for i in np.ndindex(*shape)]
    # remember so that the inverse of exactly this vector gives back the source
    f2 = Fraction(1)
    g2 = raw[0]
    ld = g2.t[min(g2.t)]
    if ld < 0:
        pr = [-z for z in raw]
        f2 = Fraction(-1)
    else:
        pr = raw
    # forward then inverse: factor 1;   inverse then forward: factor 1 as well
    C.ifft_back[(shape, bool(inverse), tuple(z.key() for z in pr))] = (prim, f2)
    for i in np.ndindex(*shape):
        w = out[i].scale(c)
        out[i] = w * mz if mz is not None else w
    return out


def fft_axes(arr, axes, inverse):
    """transform of an object ndarray over the given axes"""
    arr = np.asarray(arr, dtype=object)
    nd = arr.ndim
    axes = [a % nd for a in axes]
    rest = [a for a in range(nd) if a not in axes]
    axes = sorted(axes)
    t = np.transpose(arr, rest + axes)
    bs = t.shape[:len(rest)]
    ss = t.shape[len(rest):]
    flat = t.reshape((-1,) + ss)
    out = np.empty(flat.shape, dtype=object)
    for b in range(flat.shape[0]):
        out[b] = fft_vec(flat[b], inverse)
    out = out.reshape(bs + ss)
    return np.transpose(out, np.argsort(rest + axes))


# ---- numeric evaluation (validation of the encoding, witness checks) ------
def evalf(z, env, memo=None):
    """complex float value of z with env: atom id -> float for variables"""
    memo = {} if memo is None else memo
    n = C.n
    tot = 0j
    for (m, e), v in z.t.items():
        w = complex(v)
        if e:
            w *= complex(math.cos(2 * math.pi * e / n), math.sin(2 * math.pi * e / n))
        for i in m:
            w *= aval(i, env, memo)
        tot += w
    return tot / z.d


def aval(i, env, memo):
    if i in env:
        return env[i]
    if i in memo:
        return memo[i]
    a = C.atoms[i]
    if a.kind == 'var':
        if a.name.startswith('undefined'):
            return math.nan
        raise KeyError(a.name)
    if a.kind == 'fft':
        vid = a.args[0]
        if vid not in memo:
            va = C.atoms[vid]
            shape, inverse = va.extra
            x = np.array([evalf(z, env, memo) for z in va.args]).reshape(shape)
            memo[vid] = np.fft.ifftn(x) if inverse else np.fft.fftn(x)
        idx, im = a.extra
        w = memo[vid][idx]
        r = w.imag if im else w.real
    elif a.kind == 'ite':
        r = evalf(a.args[1] if a.args[0].evalf(env, memo) else a.args[2], env, memo).real
    else:
        x = evalf(a.args[0], env, memo).real
        if a.kind == 'sqrt':
            r = math.sqrt(max(x, 0.0))
        elif a.kind == 'abs':
            r = abs(x)
        elif a.kind == 'inv':
            r = 1.0 / x if x else 0.0
        elif a.kind == 'exp':
            r = math.exp(x)
        elif a.kind in ('cos', 'sin'):
            r = math.cos(x) if a.kind == 'cos' else math.sin(x)
        elif a.kind == 'arctan2':
            r = math.atan2(x, evalf(a.args[1], env, memo).real)
        elif a.kind == 'log':
            r = math.log(x) if x > 0 else math.nan
        elif a.kind == 'pow':
            r = max(x, 0.0) ** float(a.extra)
        elif a.kind == 'mul':
            r = x * evalf(a.args[1], env, memo).real
        else:
            raise Unsupported('numeric value of ' + a.kind)
    memo[i] = r
    return r
