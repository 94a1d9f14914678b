"""Bounded integers as bit vectors.

Linear integer arithmetic with many floor divisions by powers of two is slow as integers and immediate as bit vectors.
`Hybrid` keeps every assertion translated to W-bit vectors; an interval analysis of every subterm over the declared
bounds of the variables rules out overflow, so the translation is exact.  If anything cannot be translated, the integer
solver is used instead."""
import math
import z3



class No(Exception):
    pass


class Tr:
    def __init__(self, bounds, W):
        self.bounds, self.W, self.LIM = bounds, W, 1 << (W - 3)
        self.memo = {}

    def common(self, a):
        """scale numerators to a common denominator"""
        d = 1
        for x in a:
            d = d * x[3] // math.gcd(d, x[3])
        out = []
        for x in a:
            f = d // x[3]
            if max(abs(x[1]), abs(x[2])) * f >= self.LIM or d >= self.LIM:
                raise No('range')
            out.append((x[0] * f if f != 1 else x[0], x[1] * f, x[2] * f, d))
        return out

    def go(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][0]
        r = self._go(e)
        if not isinstance(r, tuple):
            self.memo[k] = (r, e)
            return r
        if len(r) == 3:
            r = r + (1,)
        t, lo, hi, den = r
        if max(abs(lo), abs(hi)) >= self.LIM:
            raise No('range')
        self.memo[k] = (r, e)
        return r

    def _go(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            if abs(v) >= self.LIM:
                raise No('constant')
            return z3.BitVecVal(v, self.W), v, v
        if z3.is_rational_value(e):
            v, dn = e.numerator_as_long(), e.denominator_as_long()
            if max(abs(v), dn) >= self.LIM:
                raise No('constant')
            return z3.BitVecVal(v, self.W), v, v, dn
        if z3.is_true(e) or z3.is_false(e):
            return e
        d = e.decl()
        k = d.kind()
        ch = e.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            if z3.is_bool(e):
                return e
            if not z3.is_int(e) or d.name() not in self.bounds:
                raise No('unbounded ' + d.name())
            lo, hi = self.bounds[d.name()]
            return z3.BitVec(d.name() + '!bv', self.W), lo, hi
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            a = [self.go(c) for c in ch]
            return {z3.Z3_OP_AND: lambda: z3.And(*a), z3.Z3_OP_OR: lambda: z3.Or(*a), z3.Z3_OP_NOT: lambda: z3.Not(a[0]),
                    z3.Z3_OP_IMPLIES: lambda: z3.Implies(*a), z3.Z3_OP_XOR: lambda: z3.Xor(*a)}[k]()
        if k == z3.Z3_OP_ITE:
            c = self.go(ch[0])
            a, b = self.go(ch[1]), self.go(ch[2])
            if not isinstance(a, tuple):
                return z3.If(c, a, b)
            a, b = self.common([a, b])
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), a[3]
        if k in (z3.Z3_OP_TO_REAL,):
            return self.go(ch[0])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a = [self.go(c) for c in ch]
            if not isinstance(a[0], tuple):
                if k == z3.Z3_OP_EQ:
                    return a[0] == a[1]
                raise No('bool')
            t = [x[0] for x in self.common(a)]
            if k == z3.Z3_OP_EQ:
                return t[0] == t[1]
            if k == z3.Z3_OP_DISTINCT:
                return z3.Distinct(*t)
            return {z3.Z3_OP_LE: lambda: t[0] <= t[1], z3.Z3_OP_LT: lambda: t[0] < t[1],
                    z3.Z3_OP_GE: lambda: t[0] >= t[1], z3.Z3_OP_GT: lambda: t[0] > t[1]}[k]()
        a = [self.go(c) for c in ch]
        if any(not isinstance(x, tuple) for x in a):
            raise No('shape')
        if k == z3.Z3_OP_ADD:
            a = self.common(a)
            t, lo, hi, dn = a[0]
            for x in a[1:]:
                t, lo, hi = t + x[0], lo + x[1], hi + x[2]
            return t, lo, hi, dn
        if k == z3.Z3_OP_SUB:
            a = self.common(a)
            t, lo, hi, dn = a[0]
            for x in a[1:]:
                t, lo, hi = t - x[0], lo - x[2], hi - x[1]
            return t, lo, hi, dn
        if k == z3.Z3_OP_UMINUS:
            return -a[0][0], -a[0][2], -a[0][1], a[0][3]
        if k == z3.Z3_OP_MUL:
            t, lo, hi, dn = a[0]
            for x in a[1:]:
                c = [lo * x[1], lo * x[2], hi * x[1], hi * x[2]]
                t, lo, hi, dn = t * x[0], min(c), max(c), dn * x[3]
                if max(abs(lo), abs(hi), dn) >= self.LIM:
                    raise No('range')
            return t, lo, hi, dn
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            n, dv = a
            if n[3] != 1 or dv[3] != 1:
                raise No('fraction division')
            if dv[1] != dv[2] or dv[1] <= 0 or k == z3.Z3_OP_REM:
                raise No('divisor')
            m = dv[1]
            if m & (m - 1) == 0:
                s = m.bit_length() - 1
                if k == z3.Z3_OP_IDIV:
                    return n[0] >> s, n[1] // m, n[2] // m
                return n[0] & z3.BitVecVal(m - 1, self.W), 0, m - 1
            mb = z3.BitVecVal(m, self.W)
            if n[1] >= 0:
                q = z3.UDiv(n[0], mb)
            else:
                q0 = n[0] / mb
                q = z3.If(z3.And(n[0] < 0, q0 * mb != n[0]), q0 - 1, q0)
            if k == z3.Z3_OP_IDIV:
                return q, n[1] // m, n[2] // m
            return n[0] - q * mb, 0, m - 1
        raise No(d.name())


class _Val:
    def __init__(self, v): self.v = v
    def as_long(self): return self.v


class _Model:
    def __init__(self, m, tr):
        self.m, self.tr = m, tr

    def eval(self, e, model_completion=True):
        if z3.is_bool(e):
            return self.m.eval(self.tr.go(e), model_completion=True)
        return _Val(self.m.eval(self.tr.go(e)[0], model_completion=True).as_signed_long())


class Hybrid:
    def __init__(self, bounds, timeout_ms):
        self.bounds = bounds
        self.timeout = timeout_ms
        self.all = []
        self.it = z3.Solver()
        for n, (lo, hi) in bounds.items():
            self.it.add(z3.Int(n) >= lo, z3.Int(n) <= hi)
        self.why = None
        self.hard = False
        self.width = max(max(abs(a), abs(b)) for a, b in bounds.values()).bit_length() + 7
        self._reset()

    def _reset(self):
        self.tr = Tr(self.bounds, self.width)
        self.bv = []
        self.done = 0
        for n, (lo, hi) in self.bounds.items():
            v = z3.BitVec(n + '!bv', self.width)
            self.bv += [v >= lo, v <= hi]

    def _translate(self, assump):
        """all assertions and assumptions as bit vectors, widening as needed"""
        while True:
            try:
                while self.done < len(self.all):
                    self.bv.append(self.tr.go(self.all[self.done]))
                    self.done += 1
                return [self.tr.go(e) for e in assump]
            except No as x:
                if str(x) in ('range', 'constant') and self.width < 64:
                    self.width = min(64, self.width + 12)
                    self._reset()
                    continue
                self.why = str(x)
                return None

    def add(self, *es):
        self.it.add(*es)
        self.all += es

    def set(self, *a):
        pass

    def assertions(self):
        return self.it.assertions()

    def check(self, *assump):
        if not self.hard:
            self.it.set('timeout', 40)
            r = self.it.check(*assump)
            if r != z3.unknown:
                self._model = self.it.model() if r == z3.sat else None
                return r
        a = self._translate(assump)
        if a is not None:
            sv = z3.SolverFor('QF_BV')
            sv.set('timeout', self.timeout)
            sv.add(*self.bv)
            sv.add(*a)
            r = sv.check()
            self._model = _Model(sv.model(), self.tr) if r == z3.sat else None
            return r
        self.it.set('timeout', self.timeout)
        r = self.it.check(*assump)
        self._model = self.it.model() if r == z3.sat else None
        return r

    def model(self):
        return self._model
