"""Symbolic strings: str objects backed by z3 sequences (printable ASCII of bounded length).

The Python value of a symbolic string is a unique token, so that native operations which copy it (formatting, join,
concatenation inside C code) carry the token along; `decode` turns a string with tokens back into its z3 expression."""
import re
import z3
from .poly import C, Unsupported
from .engine import SBool, SInt, STATS, check, Infeasible, mk

_tab = {}
_low = {}
ANY = z3.Full(z3.ReSort(z3.StringSort()))
TOKEN = re.compile('\u27e6(\\d+)\u27e7')


def _token(e):
    k = e.sexpr()
    for i, (kk, _) in _tab.items():
        if kk == k:
            return i
    i = len(_tab)
    _tab[i] = (k, e)
    return i


def decode(s):
    """z3 expression of a plain or symbolic string"""
    if isinstance(s, SLow):
        return z3.StringVal(s.value())
    if isinstance(s, SStr):
        return s.e
    if not isinstance(s, str):
        raise TypeError(type(s))
    parts, pos = [], 0
    for m in TOKEN.finditer(s):
        if m.start() > pos:
            parts.append(z3.StringVal(s[pos:m.start()]))
        low = _low.get(m.group(0))
        parts.append(z3.StringVal(low.value()) if low is not None else _tab[int(m.group(1))][1])
        pos = m.end()
    if pos < len(s):
        parts.append(z3.StringVal(s[pos:]))
    if not parts:
        return z3.StringVal('')
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def text(m):
    """Python string of a z3 string value"""
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda x: chr(int(x.group(1), 16)), m.as_string())


def wrap(e, cap):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return text(e)
    return SStr(e, cap)


def printable(x, cap):
    """assumptions on a string variable"""
    return z3.And(z3.Length(x) <= cap, z3.InRe(x, z3.Star(z3.Range(' ', '~'))))


def strvar(name, cap):
    return SStr(z3.String(name), cap)


def sb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


class SStr(str):
    def __new__(cls, e, cap):
        o = str.__new__(cls, '\u27e6%d\u27e7' % _token(e))
        o.e, o.cap = e, cap
        return o

    def value(self):
        """concretise by forking"""
        return C.explorer.value(self.e, z3.is_string_value, text, z3.StringVal)

    def _o(self, o):
        return decode(o) if isinstance(o, str) else None

    def __eq__(self, o):
        z = self._o(o)
        return False if z is None else sb(self.e == z)

    def __ne__(self, o):
        z = self._o(o)
        return True if z is None else sb(self.e != z)

    def __hash__(self): return hash(self.value())
    def __bool__(self): return bool(sb(self.e != z3.StringVal('')))

    def __len__(self):
        return C.explorer.value(z3.Length(self.e))

    def _cap(self, o): return self.cap + (o.cap if isinstance(o, SStr) else len(o))

    def __add__(self, o):
        z = self._o(o)
        return NotImplemented if z is None else wrap(z3.Concat(self.e, z), self._cap(o))

    def __radd__(self, o):
        z = self._o(o)
        return NotImplemented if z is None else wrap(z3.Concat(z, self.e), self._cap(o))

    def lower(self): return SLow(self, str.lower)
    casefold = lower
    def upper(self): return SLow(self, str.upper)

    def startswith(self, o, *a):
        if a:
            raise Unsupported('startswith with positions')
        if isinstance(o, tuple):
            return any(self.startswith(x) for x in o)
        return sb(z3.PrefixOf(decode(o), self.e))

    def endswith(self, o, *a):
        if a:
            raise Unsupported('endswith with positions')
        if isinstance(o, tuple):
            return any(self.endswith(x) for x in o)
        return sb(z3.SuffixOf(decode(o), self.e))

    def __contains__(self, o): return bool(sb(z3.Contains(self.e, decode(o))))

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1):
            n = z3.Length(self.e)

            def pos(v, default):
                if v is None:
                    return default
                v = z3.IntVal(v)
                v = z3.If(v < 0, v + n, v)
                return z3.If(v < 0, z3.IntVal(0), z3.If(v > n, n, v))
            a, b = pos(k.start, z3.IntVal(0)), pos(k.stop, n)
            return wrap(z3.SubString(self.e, a, z3.If(b > a, b - a, z3.IntVal(0))), self.cap)
        return self.value()[k]

    def replace(self, a, b, *n): return self.value().replace(a, b, *n)
    def split(self, *a): return self.value().split(*a)
    def _strip(self, chars, left, right):
        """fresh parts: self = a + r + b with a, b of stripped characters only and r not beginning (ending) with one"""
        if isinstance(chars, SStr):
            chars = chars.value()
        cs = ' ' if chars is None else chars       # the only printable white space
        if not cs:
            return self
        ex = C.explorer
        one = z3.Union(*[z3.Re(c) for c in cs]) if len(set(cs)) > 1 else z3.Re(cs[0])
        t = '%d%r%d%d' % (_token(self.e), cs, left, right)
        a, rr, b = (z3.String(n + t) for n in 'arb')
        done = ex.logs.setdefault('strip', set())
        if t not in done:
            done.add(t)
            c = [self.e == z3.Concat(a, rr, b), z3.InRe(a, z3.Star(one)), z3.InRe(b, z3.Star(one))]
            if not left:
                c.append(a == z3.StringVal(''))
            if not right:
                c.append(b == z3.StringVal(''))
            if left:
                c.append(z3.Not(z3.InRe(rr, z3.Concat(one, ANY))))
            if right:
                c.append(z3.Not(z3.InRe(rr, z3.Concat(ANY, one))))
            if left and right:
                c.append(z3.Implies(rr == z3.StringVal(''), b == z3.StringVal('')))
            for x in c:
                ex.assume(SBool(x))
        return SStr(rr, self.cap)

    def strip(self, c=None): return self._strip(c, True, True)
    def rstrip(self, c=None): return self._strip(c, False, True)
    def lstrip(self, c=None): return self._strip(c, True, False)
    def capitalize(self): return self.value().capitalize()
    def title(self): return self.value().title()
    def find(self, *a): return self.value().find(*a)
    def index(self, *a): return self.value().index(*a)
    def partition(self, *a): return self.value().partition(*a)
    def rpartition(self, *a): return self.value().rpartition(*a)
    def removeprefix(self, p): return self[len(p):] if self.startswith(p) else self
    def removesuffix(self, p): return self[:-len(p)] if p and self.endswith(p) else self
    def isidentifier(self): return self.value().isidentifier()
    def __iter__(self): return iter(self.value())
    def __str__(self): return str.__str__(self)
    def __format__(self, s): return str.__str__(self)


def _cire(x, f):
    """regular expression of the strings that map to x under f (str.lower or str.upper)"""
    parts = []
    for c in x:
        opts = sorted({d for d in (c, c.lower(), c.upper()) if f(d) == c})
        if not opts:
            return None
        parts.append(z3.Union(*[z3.Re(d) for d in opts]) if len(opts) > 1 else z3.Re(opts[0]))
    if not parts:
        return z3.Re('')
    return z3.Concat(*parts) if len(parts) > 1 else parts[0]



class SLow(SStr):
    """a symbolic string in lower (upper) case, kept as the original string: comparisons become regular expressions"""

    def __new__(cls, of, f):
        o = SStr.__new__(cls, z3.String('%s(%s)' % (f.__name__, of.e.sexpr())), of.cap)
        o.of, o.f = of, f
        _low[str.__str__(o)] = o
        return o

    def value(self):
        def one():
            for _ in range(4096):
                ex = C.explorer
                pos = ex.pos
                if pos < len(ex.prefix) and isinstance(ex.prefix[pos], tuple) and ex.prefix[pos][0] == 'low':
                    _, v, taken = ex.prefix[pos]
                else:
                    ex._sync()
                    ex._clock()
                    r = check(ex.solver)
                    if r == z3.unsat:
                        raise Infeasible()
                    if r == z3.unknown:
                        raise Unsupported('unknown while concretising')
                    v, taken = self.f(text(ex.solver.model().eval(self.of.e, model_completion=True))), True
                    ex.prefix = ex.prefix + [('low', v, True)]
                    STATS.branches += 1
                    if check(ex.solver, z3.Not(z3.InRe(self.of.e, _cire(v, self.f)))) != z3.unsat:
                        ex.alts.append(ex.trace + [('low', v, False)])
                ex.pos += 1
                ex.trace.append(('low', v, taken))
                c = z3.InRe(self.of.e, _cire(v, self.f))
                ex.solver.add(c if taken else z3.Not(c))
                if taken:
                    return v
            raise Unsupported('too many values')
        return one()

    def _re(self, o, mk):
        if isinstance(o, SStr):
            o = o.value()
        elif TOKEN.search(o):
            raise Unsupported('comparison of two symbolic strings of folded case')
        r = _cire(o, self.f)
        return False if r is None else sb(z3.InRe(self.of.e, mk(r)))

    def __eq__(self, o):
        return self._re(o, lambda r: r) if isinstance(o, str) else False

    def __ne__(self, o):
        b = self.__eq__(o)
        return (not b) if isinstance(b, bool) else ~b
    def __hash__(self): return hash(self.value())
    def __bool__(self): return bool(self.of)
    def __len__(self): return len(self.of)
    def __add__(self, o): return self.value() + o
    def __radd__(self, o): return o + self.value()
    def __contains__(self, o): return bool(self._re(o, lambda r: z3.Concat(ANY, r, ANY)))
    def __getitem__(self, k): return self.value()[k]
    def _strip(self, c, left, right): return SLow(self.of._strip(c, left, right), self.f)
    def lower(self): return SLow(self.of, str.lower)
    casefold = lower
    def upper(self): return SLow(self.of, str.upper)

    def startswith(self, o, *a):
        if isinstance(o, tuple):
            return any(self.startswith(x) for x in o)
        return self._re(o, lambda r: z3.Concat(r, ANY))

    def endswith(self, o, *a):
        if isinstance(o, tuple):
            return any(self.endswith(x) for x in o)
        return self._re(o, lambda r: z3.Concat(ANY, r))
