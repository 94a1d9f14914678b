"""Path exploration by re-execution; symbolic integers and booleans backed by z3."""
import numbers
import time
from fractions import Fraction
import z3
from . import poly
from .poly import C, Z, Unsupported, lift


class Infeasible(BaseException):
    """the current path's assumptions are unsatisfiable (prune)"""


class PathLimit(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.paths = 0
        self.branches = 0
        self.assumed = 0

    def merge(self, o):
        for k, v in (o if isinstance(o, dict) else o.__dict__).items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()


def check(solver, *assump):
    t = time.time()
    r = solver.check(*assump)
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    if r == z3.sat:
        STATS.sat += 1
    elif r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return r


# ---- translation of polynomials to z3 ------------------------------------
class Zx:
    """Z -> z3; collects the defining axioms of the atoms it meets"""

    def __init__(self, axioms=True):
        self.vars = {}
        self.cache = {}
        self.ax = []
        self.with_axioms = axioms
        self.pending = []

    def atom(self, i):
        v = self.vars.get(i)
        if v is None:
            a = C.atoms[i]
            if a.kind == 'int':
                v = z3.ToReal(a.extra)
                self.vars[i] = v
                return v
            v = z3.Real('a%d_%s' % (i, a.name))
            self.vars[i] = v
            if a.nonneg:
                self.ax.append(v >= 0)
            if self.with_axioms:
                self.pending.append(i)
        return v

    def flush(self):
        """defining axioms for everything met so far"""
        exps = [i for i in self.vars if C.atoms[i].kind == 'exp']
        while self.pending:
            i = self.pending.pop()
            a = C.atoms[i]
            v = self.vars[i]
            if a.kind == 'sqrt':
                self.ax.append(v * v == self.real(a.args[0]))
            elif a.kind == 'abs':
                x = self.real(a.args[0])
                self.ax.append(v == z3.If(x >= 0, x, -x))
            elif a.kind == 'inv':
                x = self.real(a.args[0])
                self.ax.append(z3.Implies(x != 0, v * x == 1))
            elif a.kind == 'mul':
                self.ax.append(v == self.real(a.args[0]) * self.real(a.args[1]))
            elif a.kind == 'ite':
                self.ax.append(v == z3.If(a.args[0].z3(self), self.real(a.args[1]), self.real(a.args[2])))
            elif a.kind in ('cos', 'sin'):
                o = C.table.get(('sin' if a.kind == 'cos' else 'cos', a.args[0].key()))
                self.ax.append(z3.And(v >= -1, v <= 1))
                if o is not None and o in self.vars:
                    self.ax.append(v * v + self.vars[o] * self.vars[o] == 1)
            elif a.kind == 'log':
                x = self.real(a.args[0])
                self.ax.append(z3.Implies(x > 0, z3.If(x > 1, v > 0, z3.If(x < 1, v < 0, v == 0))))
            elif a.kind == 'exp':
                self.ax.append(v > 0)
                x = self.real(a.args[0])
                self.ax.append(z3.If(x > 0, v > 1, z3.If(x < 0, v < 1, v == 1)))
                exps.append(i)
        exps = sorted(set(exps))
        if len(exps) <= 12:
            for p in range(len(exps)):
                for q in range(p):
                    xa, xb = self.real(C.atoms[exps[p]].args[0]), self.real(C.atoms[exps[q]].args[0])
                    va, vb = self.vars[exps[p]], self.vars[exps[q]]
                    self.ax.append(z3.And(z3.Implies(xa < xb, va < vb), z3.Implies(xa > xb, va > vb),
                                          z3.Implies(xa == xb, va == vb)))
        return self.ax

    def parts(self, z):
        """dict: basis exponent -> z3 real expression"""
        k = z.key()
        r = self.cache.get(k)
        if r is not None:
            return r
        acc = {}
        for (m, e), v in z.t.items():
            c = Fraction(v, z.d)
            t = z3.RealVal(str(c))
            if m:
                pr = None
                for i in m:
                    x = self.atom(i)
                    pr = x if pr is None else pr * x
                t = pr if c == 1 else t * pr
            acc.setdefault(e, []).append(t)
        r = {e: (ts[0] if len(ts) == 1 else z3.Sum(ts)) for e, ts in acc.items()}
        self.cache[k] = r
        return r

    def real(self, z):
        if C.n != 4 and not all(e == 0 for (m, e) in z.t):
            raise Unsupported('ordering of algebraic coefficients')
        p = self.parts(z)
        if any(e for e in p):
            raise Unsupported('ordering of complex values')
        return p.get(0, z3.RealVal(0))


_OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b,
        '!=': lambda a, b: a != b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


class SBool:
    __slots__ = ('e', 'poly', 'comb')

    def __init__(self, e=None, poly=None, comb=None):
        self.e, self.poly, self.comb = e, poly, comb

    def key(self):
        if self.poly is not None:
            return ('p', self.poly[0], self.poly[1].key())
        if self.comb is not None:
            return ('c', self.comb[0]) + tuple(x.key() if isinstance(x, SBool) else x for x in self.comb[1:])
        return ('e', self.e.sexpr())

    def z3(self, zx=None):
        if self.e is not None:
            return self.e
        if self.comb is not None:
            op, *xs = self.comb
            xs = [x.z3(zx) if isinstance(x, SBool) else z3.BoolVal(bool(x)) for x in xs]
            return {'and': lambda: z3.And(*xs), 'or': lambda: z3.Or(*xs), 'not': lambda: z3.Not(xs[0])}[op]()
        zx = zx or C.explorer.zx
        op, d = self.poly
        if op in ('==', '!='):
            p = zx.parts(d)
            eq = z3.And(*[x == 0 for x in p.values()]) if p else z3.BoolVal(True)
            return eq if op == '==' else z3.Not(eq)
        return _OPS[op](zx.real(d), 0)

    def evalf(self, env, memo):
        if self.poly is not None:
            v = poly.evalf(self.poly[1], env, memo)
            op = self.poly[0]
            if op in ('==', '!='):
                return (abs(v) == 0) == (op == '==')
            return bool(_OPS[op](v.real, 0))
        if self.comb is not None:
            op, *xs = self.comb
            xs = [x.evalf(env, memo) if isinstance(x, SBool) else bool(x) for x in xs]
            return all(xs) if op == 'and' else any(xs) if op == 'or' else not xs[0]
        raise Unsupported('evaluation of an integer condition')

    def __bool__(self):
        if C.explorer is None:
            raise Unsupported('data-dependent branch outside path exploration')
        return C.explorer.branch(self)

    def _b(self, o, op):
        if isinstance(o, (bool, SBool)):
            return SBool(comb=(op, self, o))
        return NotImplemented

    def __and__(self, o): return self._b(o, 'and')
    def __or__(self, o): return self._b(o, 'or')
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return SBool(comb=('not', self))


class Explorer:
    def __init__(self, assumptions=(), max_paths=20000, max_branches=4000, timeout_ms=20000, tactic=None, bounds=None, seconds=None):
        self.bounds = bounds
        self.until = time.time() + seconds if seconds else None
        self.assumptions = list(assumptions)
        self.max_paths, self.max_branches = max_paths, max_branches
        self.timeout_ms = timeout_ms
        self.complete = True
        self.notes = []

    def run(self, fn, on_path=None):
        """fn(explorer) is re-executed once per feasible path; returns list of results"""
        results = []
        stack = [[]]
        n = 0
        old = C.explorer
        C.explorer = self
        try:
            while stack:
                self.prefix = stack.pop()
                self.pos = 0
                self.trace = []
                self.alts = []
                self.logs = {}
                if self.bounds:
                    from .bv import Hybrid
                    self.solver = Hybrid(self.bounds, self.timeout_ms)
                else:
                    self.solver = z3.Solver()
                    self.solver.set('timeout', self.timeout_ms)
                self.zx = Zx()
                for a in self.assumptions:
                    self.solver.add(a)
                n += 1
                if n > self.max_paths:
                    self.complete = False
                    self.notes.append('path limit')
                    break
                try:
                    r = fn(self)
                except Infeasible:
                    pass
                else:
                    STATS.paths += 1
                    results.append(r)
                    if on_path is not None:
                        on_path(r)
                stack.extend(self.alts)
        finally:
            C.explorer = old
        return results

    def _sync(self):
        ax = self.zx.flush()
        if ax:
            self.solver.add(*ax)
            self.zx.ax = []

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        e = c.z3(self.zx) if isinstance(c, SBool) else c
        self._sync()
        self.solver.add(e)
        STATS.assumed += 1

    def _clock(self):
        if self.until and time.time() > self.until:
            raise PathLimit('time limit')

    def feasible(self):
        return check(self.solver) != z3.unsat

    def branch(self, c):
        e = c.z3(self.zx) if isinstance(c, SBool) else c
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self._sync()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            if isinstance(v, tuple):
                raise Unsupported('the code took different steps on the same path')
            self.pos += 1
            self.trace.append(v)
            if v in (2, 3):        # implied by the path so far
                return v == 3
            self.solver.add(e if v else z3.Not(e))
            return v
        STATS.branches += 1
        self._clock()
        if len(self.trace) > self.max_branches:
            raise PathLimit('too many branches on one path')
        rt = check(self.solver, e)
        rf = check(self.solver, z3.Not(e))
        if rt == z3.unsat and rf == z3.unsat:
            raise Infeasible()
        if rt == z3.unknown or rf == z3.unknown:
            self.notes.append('unknown branch feasibility')
        implied = rt == z3.unsat or rf == z3.unsat
        if rt == z3.unsat:
            v = False
        elif rf == z3.unsat:
            v = True
        else:
            v = True
            self.alts.append(self.trace + [False])
        rec = (3 if v else 2) if implied else v
        self.pos += 1
        self.prefix = self.prefix + [rec]
        self.trace.append(rec)
        if not implied:
            self.solver.add(e if v else z3.Not(e))
        return v

    def value(self, expr, isval=z3.is_int_value, py=lambda v: v.as_long(), back=lambda v: v):
        """concretise an integer (or string) expression by forking on its possible values"""
        expr = z3.simplify(expr)
        if isval(expr):
            return py(expr)
        for _ in range(4096):
            # candidate value must be reproducible: take it from the recorded trace if there is one
            if self.pos < len(self.prefix) and isinstance(self.prefix[self.pos], tuple):
                kind, v, taken = self.prefix[self.pos]
                self.pos += 1
                self.trace.append((kind, v, taken))
                self.solver.add(expr == back(v) if taken else expr != back(v))
                if taken:
                    return v
                continue
            self._sync()
            self._clock()
            r = check(self.solver)
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise Unsupported('unknown while concretising')
            v = py(self.solver.model().eval(expr, model_completion=True))
            STATS.branches += 1
            if check(self.solver, expr != back(v)) != z3.unsat:
                self.alts.append(self.trace + [('v', v, False)])
            self.pos += 1
            self.prefix = self.prefix + [('v', v, True)]
            self.trace.append(('v', v, True))
            self.solver.add(expr == back(v))
            return v
        raise PathLimit('too many values')

    def prove(self, c):
        """is c valid on this path?  ('holds'|'fails', model) or ('unknown', None)"""
        if isinstance(c, bool):
            if c:
                return 'holds', None
            r = check(self.solver)
            if r == z3.unsat:
                return 'holds', None
            return ('fails', self.solver.model()) if r == z3.sat else ('unknown', None)
        e = c.z3(self.zx) if isinstance(c, SBool) else c
        self._sync()
        if self.bounds:
            self.solver.hard = True
        r = check(self.solver, z3.Not(e))
        if self.bounds:
            self.solver.hard = False
        if r == z3.unsat:
            return 'holds', None
        if r == z3.sat:
            return 'fails', self.solver.model()
        return 'unknown', None


# ---- symbolic integers ----------------------------------------------------
def _zi(o):
    if isinstance(o, SInt):
        return o.e
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, numbers.Integral):
        return z3.IntVal(int(o))
    return None


def mk(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


class SInt:
    """symbolic Python int"""
    __array_priority__ = 1000
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = z3.Int(e) if isinstance(e, str) else e

    __hash__ = object.__hash__

    def _as_Z(self):
        i = poly.atom('int', self.e.sexpr(), (), False, name=self.e.sexpr()[:40], extra=self.e)
        return Z({((i,), 0): 1})

    def _bin(self, o, f, rev=False):
        z = _zi(o)
        if z is None:
            if isinstance(o, float) and o.is_integer():
                z = z3.IntVal(int(o))
            else:
                return None
        return f(z, self.e) if rev else f(self.e, z)

    def _ar(self, o, f, name, rev=False):
        r = self._bin(o, f, rev)
        if r is not None and not isinstance(o, float):
            return mk(r)
        l = lift(o)
        if l is NotImplemented:
            return NotImplemented
        a = self._as_Z()
        return getattr(l, name)(a) if rev else getattr(a, name)(l)

    def __add__(self, o): return self._ar(o, lambda a, b: a + b, '__add__')
    def __radd__(self, o): return self._ar(o, lambda a, b: a + b, '__add__', True)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b, '__sub__')
    def __rsub__(self, o): return self._ar(o, lambda a, b: a - b, '__sub__', True)
    def __mul__(self, o):
        if isinstance(o, SPow2):
            return SInt.__mul__(self, o.concrete())
        if isinstance(o, (tuple, list)):
            return o * self.__index__()
        return self._ar(o, lambda a, b: a * b, '__mul__')
    __rmul__ = __mul__
    def __neg__(self): return mk(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mk(z3.If(self.e >= 0, self.e, -self.e))
    def __truediv__(self, o):
        return self._as_Z() / lift(o)
    def __rtruediv__(self, o):
        return lift(o) / self._as_Z()

    def __floordiv__(self, o):
        if isinstance(o, SPow2):
            o = o.concrete()
        z = _zi(o)
        if z is None:
            raise Unsupported('// on mixed types')
        return _fdiv(self.e, z)

    def __rfloordiv__(self, o):
        return _fdiv(_zi(o), self.e)

    def __mod__(self, o):
        if isinstance(o, SPow2):
            o = o.concrete()
        z = _zi(o)
        return _fmod(self.e, z)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return _fmod(_zi(o), self.e)

    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, SInt):
            o = o.__index__()
        if isinstance(o, int) and o >= 0:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return self._as_Z() ** o

    def __rpow__(self, o):
        if o == 2 and getattr(C.explorer, 'pow2', False):
            return SPow2(self)
        return o ** self.__index__()

    def __lshift__(self, o): return self * 2 ** o
    def __rlshift__(self, o): return o * (2 ** self)
    def __rshift__(self, o): return self // (2 ** o)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        if isinstance(o, (int, SInt)):
            return self.__index__() & int(o)
        raise Unsupported('bitwise and')
    __rand__ = __and__

    def __or__(self, o): return self.__index__() | int(o)
    def __xor__(self, o): return self.__index__() ^ int(o)
    __ror__, __rxor__ = __or__, __xor__
    def __invert__(self): return -self - 1
    def __rrshift__(self, o): return o // (2 ** self)

    def _cmp(self, o, op):
        if isinstance(o, SPow2):
            o = o.concrete()
        z = _zi(o)
        if z is None:
            if isinstance(o, float) and o in (float('inf'), float('-inf')):
                return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
            l = lift(o)
            if l is NotImplemented:
                if op == '==':
                    return False
                if op == '!=':
                    return True
                return NotImplemented
            return self._as_Z()._cmp(l, op)
        e = z3.simplify(_OPS[op](self.e, z))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SBool(e)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __bool__(self): return bool(self != 0)

    def __index__(self):
        return C.explorer.value(self.e)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def __round__(self, nd=None): return self
    def is_integer(self): return True
    real = property(lambda self: self)
    imag = 0
    numerator = property(lambda self: self)
    denominator = 1
    def conjugate(self): return self

    def log2(self): return SLog2(lift(self))
    def sqrt(self): return self._as_Z().sqrt()
    def bit_length(self):
        return (SLog2(lift(self)).floor() + 1) if self > 0 else 0

    def __repr__(self): return '<%s>' % self.e.sexpr().replace('\n', ' ')[:60]
    def __format__(self, s): return repr(self)


def _fdiv(a, b):
    if z3.is_int_value(b):
        k = b.as_long()
        if k == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if k > 0:
            return mk(a / b)
        return mk((-a) / (-b))
    if SBool(b > 0):
        return mk(a / b)
    if SBool(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    return mk((-a) / (-b))


def _fmod(a, b):
    if z3.is_int_value(b):
        k = b.as_long()
        if k == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if k > 0:
            return mk(a % b)
        return mk(-((-a) % (-b)))
    if SBool(b > 0):
        return mk(a % b)
    if SBool(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    return mk(-((-a) % (-b)))


numbers.Integral.register(SInt)


class SPow2:
    """2**e with e a symbolic integer (only in harnesses that keep exponents symbolic)"""
    __slots__ = ('exp',)

    def __init__(self, exp):
        self.exp = exp

    def concrete(self):
        return 2 ** self.exp.__index__()

    __index__ = concrete
    __int__ = concrete

    def __mul__(self, o):
        if isinstance(o, SPow2):
            return SPow2(self.exp + o.exp)
        return self.concrete() * o
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, SPow2):
            d = self.exp - o.exp
            if d >= 0:
                return SPow2(d) if isinstance(d, SInt) else 2 ** d
            return 0
        return self.concrete() // o

    def __rfloordiv__(self, o): return o // self.concrete()
    def __rtruediv__(self, o): return o / self.concrete()
    def __truediv__(self, o): return self.concrete() / o
    def __add__(self, o): return self.concrete() + o
    __radd__ = __add__
    def __sub__(self, o): return self.concrete() - o
    def __rsub__(self, o): return o - self.concrete()
    def __rmod__(self, o): return o % self.concrete()

    def _c(self, o, op):
        if isinstance(o, SPow2):
            return getattr(self.exp, op)(o.exp)
        if isinstance(o, int) and o > 0 and (o & (o - 1)) == 0:
            return getattr(self.exp, op)(o.bit_length() - 1)
        return getattr(self.concrete(), op)(o)

    def __lt__(self, o): return self._c(o, '__lt__')
    def __le__(self, o): return self._c(o, '__le__')
    def __gt__(self, o): return self._c(o, '__gt__')
    def __ge__(self, o): return self._c(o, '__ge__')
    def __eq__(self, o): return self._c(o, '__eq__')
    def __ne__(self, o): return self._c(o, '__ne__')
    __hash__ = object.__hash__
    def __neg__(self): return -self.concrete()


numbers.Integral.register(SPow2)


class SLog2:
    """sign*log2(arg) + off for a positive real arg; only floor/ceil/compare to integers are decided"""

    def __init__(self, arg, sign=1, off=0):
        self.arg, self.sign, self.off = arg, sign, off

    def __neg__(self): return SLog2(self.arg, -self.sign, -self.off)
    def __add__(self, o):
        if isinstance(o, SLog2):
            a = self.arg if self.sign > 0 else 1 / lift(self.arg)
            b = o.arg if o.sign > 0 else 1 / lift(o.arg)
            return SLog2(a * b, 1, self.off + o.off)
        return SLog2(self.arg, self.sign, self.off + o)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SLog2):
            return self + (-o)
        return SLog2(self.arg, self.sign, self.off - o)
    def __rsub__(self, o): return (-self) + o

    def _fl(self, need=True):
        """(floor(log2 arg), exact?) by forking"""
        a = self.arg
        cache = getattr(C.explorer, 'logs', None) if C.explorer is not None else None
        k = a.key() if cache is not None and hasattr(a, 'key') else None
        if k is not None and k in cache:
            e = cache[k]
            return e, (bool(a == Fraction(2) ** e) if need else None)
        e, x = self._gallop(a, need)
        if k is not None:
            cache[k] = e
        return e, x

    def _gallop(self, a, need):
        if not (a > 0):
            raise ValueError('math domain error')
        lo, hi = -64, 64
        e = None
        # gallop from 0 in a deterministic order
        k = 0
        if a >= 1:
            while k < hi and a >= Fraction(2) ** (k + 1):
                k += 1
            e = k
        else:
            k = -1
            while k > lo and a < Fraction(2) ** k:
                k -= 1
            e = k
        if e <= lo or e >= hi:
            raise Unsupported('log2 out of modelled range')
        if not need:
            return e, None
        exact = bool(a == Fraction(2) ** e)
        return e, exact

    def floor(self):
        e, x = self._fl(self.sign < 0)
        if self.sign > 0:
            return e + self.off
        return -(e if x else e + 1) + self.off

    def ceil(self):
        e, x = self._fl(self.sign > 0)
        if self.sign > 0:
            return (e if x else e + 1) + self.off
        return -e + self.off

    __floor__ = floor
    __ceil__ = ceil

    def __int__(self):
        f, c = self.floor(), self.ceil()
        return f if f >= 0 else c
    __trunc__ = __int__

    def is_integer(self):
        return self._fl()[1]

    def __mod__(self, k):
        if k == 1 and self.is_integer():
            return 0
        raise Unsupported('log2 % ')

    def __float__(self): raise Unsupported('float of log2')

    def __floordiv__(self, k):
        if k == 1:
            return self.floor()
        raise Unsupported('log2 //')

    def __round__(self, nd=None):
        # nearest integer: log2 a >= e + 1/2  iff  a^2 >= 2^(2e+1); the tie is irrational for rational a
        if nd or not isinstance(self.off, int):
            raise Unsupported('round of log2')
        e, _ = self._fl(False)
        up = bool(self.arg * self.arg >= Fraction(2) ** (2 * e + 1))
        v = e + 1 if up else e
        return (v if self.sign > 0 else -v) + self.off

    def __rpow__(self, b):
        if b == 2:
            a = self.arg if self.sign > 0 else 1 / self.arg
            return a * 2 ** self.off
        raise Unsupported('power of log2')

    def __mul__(self, k):
        if isinstance(k, (int, float)) and k == 1:
            return self
        if isinstance(k, (int, float)) and k == -1:
            return -self
        raise Unsupported('product with log2')
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, int):
            return self.floor() == o and self.ceil() == o
        if isinstance(o, SLog2):
            return (self.arg == o.arg) if (self.sign, self.off) == (o.sign, o.off) else NotImplemented
        return NotImplemented
    __hash__ = object.__hash__

    def __lt__(self, o): return self.ceil() <= o - 1 or (self.floor() < o)
    def __ge__(self, o): return not (self < o)
    def __gt__(self, o): return self.ceil() > o
    def __le__(self, o): return not (self > o)
