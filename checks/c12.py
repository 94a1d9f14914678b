"""C12: parameters of the 1D transforms are validated.  The real parsing and checking code runs on symbolic integers, reals and
strings; accepted means that no exception is raised and the parsed value is right, refused that an exception is raised."""
import warnings
from .free import *
from .c01 import stubs

ASSUMPTIONS = ['averaging lengths, strides, oversamplings and quality factors are Python integers, real numbers (any), or strings',
               'the numerical filter support used for padding is stubbed (C11)']
N1 = 2 ** 20


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def attempt(f):
    """(value, None) or (None, exception); only errors a caller is meant to see"""
    try:
        return quiet(f), None
    except (Infeasible, PathLimit, Unsupported, z3.Z3Exception):
        raise
    except (ValueError, TypeError, NotImplementedError, OverflowError, ZeroDivisionError) as e:
        return None, e


def AND(*cs):
    r = True
    for c in cs:
        if c is False or r is False:
            return False
        r = c if r is True else (r if c is True else r & c)
    return r


def NOT(c):
    return ~c if isinstance(c, SBool) else not c


def isstr(v, s):
    return sb(decode(v) == z3.StringVal(s))


def parse(r, J, kind, alias):
    ut = shim.load('kymatio.scattering1d.utils', ints=True)
    key = 'parse %s of kind %s, J=%d' % (alias, kind, J)
    r.bound('%s: every signal length 1..2^20, every %s' % (key, kind))

    def body(v):
        N = v['N']
        T = dict(none=None, text=v.get('s'), integer=v.get('t'), real=v.get('u'))[kind]
        o, err = attempt(lambda: ut.parse_T(T, J, N, T_alias=alias))
        if kind == 'none':
            return [('accepted', err is None), ('value', err is None and o[0] == 2 ** J), ('local', err is None and o[1] == 'local')]
        if kind == 'text':
            if err is None:
                return [('only the text "global"', isstr(T, 'global')), ('value', o[0] == 2 ** J), ('means global', o[1] == 'global')]
            return [('the text "global" is accepted', NOT(isstr(T, 'global')))]
        good = (T == 0), AND(T >= 1, T <= N)
        if err is not None:
            return [('zero is accepted', NOT(good[0])), ('lengths from one to the signal length are accepted', NOT(good[1]))]
        if o[1] == 'local':
            return [('a local length is between one and the signal length', good[1]), ('value', o[0] == T)]
        return [('only zero means no averaging', good[0]), ('means no averaging', o[1] is False), ('value', o[0] == 2 ** J)]
    vars = dict(N=Int())
    smp = dict(N=7)
    if kind == 'text':
        vars['s'], smp['s'] = Str(8), 'global'
    if kind == 'integer':
        vars['t'], smp['t'] = Int(), 3
    if kind == 'real':
        vars['u'], smp['u'] = Real(), 2.5
    explore_free(r, key, body, vars, lambda v: [v['N'] >= 1, v['N'] <= N1], samples=[smp], ints=True)


def base(J, N, joint=False, **k):
    shim.load(ints=True)
    from kymatio.scattering1d.frontend import base_frontend as bf
    if joint:
        k.setdefault('Q', 1)
        return bf.TimeFrequencyScatteringBase(J, 1, shape=N, **k)
    return bf.ScatteringBase1D(J, N, **k)


def props(r, J, kind):
    """what the transform reports for its averaging length, through construction"""
    key = 'averaging of the transform, %s, J=%d' % (kind, J)
    r.bound('%s: every signal length 2^J..2^12' % key)

    def body(v):
        N = v['N']
        T = dict(integer=v.get('t'), real=v.get('u'), text=v.get('s'))[kind]
        S = base(J, N, T=T)
        with stubs(1):
            _, err = attempt(S.build)
        if kind == 'text':
            return [('the text "global" is accepted', NOT(isstr(T, 'global')))] if err is not None else [
                ('only the text "global"', isstr(T, 'global')), ('is global', S.average == 'global'), ('log2_T', S.log2_T == J)]
        ok0, ok1 = (T == 0), AND(T >= 1, T <= N)
        if err is not None:
            return [('zero is accepted', NOT(ok0)), ('lengths from one to the signal length are accepted', NOT(ok1))]
        if S.average == 'local':
            l = S.log2_T
            return [('local averaging only for admissible lengths', ok1), ('length', S.T == T), ('log2_T', AND(T >= 2 ** l, T < 2 ** (l + 1)))]
        return [('no averaging only for zero', ok0), ('no averaging', S.average is False), ('log2_T', S.log2_T == J)]
    vars, smp = dict(N=Int()), dict(N=2 ** J + 3)
    n, k, s = dict(integer=('t', Int(), 3), real=('u', Real(), 2.5), text=('s', Str(7), 'global'))[kind]
    vars[n], smp[n] = k, s
    explore_free(r, key, body, vars, lambda v: [v['N'] >= 2 ** J, v['N'] <= 2 ** 12], samples=[smp], ints=True, seconds=200)


def stride(r, J, average, kind, axis):
    key = 'stride%s of kind %s, %s averaging, J=%d' % ('' if axis == 't' else ' along frequency', kind, average, J)
    top = 2 ** 12
    r.bound('%s: every stride from -%d to %d, real strides in the same range' % (key, top, top))
    A = {'local': None, 'none': 0, 'global': 'global'}[average]

    def body(v):
        st = v['s'] if kind == 'integer' else v['u']
        if axis == 't':
            S = base(J, 2 ** 12, T=A, stride=st)
            with stubs(1):
                S.build()
            o, err = attempt(lambda: (S.log2_stride, S.stride))
        else:
            S = base(J, 2 ** 12, True, Q=1, F=A, stride_fr=st)
            S.shape = (2 ** 12,)
            o, err = attempt(lambda: (S.log2_stride_fr, 2 ** S.log2_stride_fr))
        if average != 'local' or kind == 'real':
            return [('refused', err is not None)]
        if isinstance(st, SInt):
            pw = SBool(z3.Or(*[st.e == 2 ** k for k in range(13)]))
        else:
            pw = st in [2 ** k for k in range(13)]
        if err is not None:
            return [('a power of two is accepted', NOT(pw))]
        return [('only powers of two', pw), ('its logarithm', 2 ** o[0] == st), ('itself', o[1] == st)]
    vars = dict(s=Int()) if kind == 'integer' else dict(u=Real())
    n = list(vars)[0]
    explore_free(r, key, body, vars, lambda v: [v[n] >= -top, v[n] <= top], ints=True,
                 samples=[{n: x} for x in ((1, 2, 3, 0, -1, 64) if kind == 'integer' else (1.0, 2.5, -1.0))])


def oversampling(r, J, average, kind, other):
    key = 'oversampling of kind %s, %s averaging, stride %s, J=%d' % (kind, average, other, J)
    A = {'local': None, 'none': 0, 'global': 'global', 'length': 't'}[average]
    r.bound('%s: every oversampling -4..%d%s' % (key, J + 4, ', every stride 1..2^10' if other == 'given' else ''))

    def body(v):
        ov = v['o'] if kind == 'integer' else v['u']
        S = base(J, 2 ** 10, T=v['t'] if A == 't' else A, stride=v['s'] if other == 'given' else None, oversampling=ov)

        def f():
            with stubs(1):
                S.build()
            return S.log2_stride, S.log2_T
        o, err = attempt(f)
        if kind == 'real':
            return [('refused', err is not None)]
        if average in ('none', 'global'):
            if other == 'given':
                return [('a stride needs local averaging', err is not None)]
            # an oversampled output needs local averaging
            if err is None:
                return [('only without oversampling', ov == 0), ('output at the averaging scale', o[0] == o[1])]
            return [('no oversampling is accepted', NOT(ov == 0))]
        l = None
        T = v['t'] if A == 't' else 2 ** J
        if err is None:
            out = [('never negative', ov >= 0), ('not beyond the averaging scale', ov <= o[1])]
            if other == 'given':
                out += [('an explicit stride stays', 2 ** o[0] == v['s'])]
                out += [('stride and oversampling agree', True if bool(ov == 0) else o[0] == o[1] - ov)]
            else:
                out += [('stride is the averaging scale minus the oversampling', o[0] == o[1] - ov)]
            return out
        lT = None
        for k in range(0, 11):
            if T >= 2 ** k:
                lT = k
        out = []
        if other == 'given':
            st = v['s']
            for k in range(0, 11):
                out.append(('agreeing stride 2^%d is accepted' % k, NOT(AND(st == 2 ** k, ov >= 0, ov <= lT, (ov == 0) if lT < k else (ov == lT - k)))))
        else:
            out.append(('admissible oversampling is accepted', NOT(AND(ov >= 0, ov <= lT))))
        return out
    vars = dict(o=Int()) if kind == 'integer' else dict(u=Real())
    if A == 't':
        vars['t'] = Int()
    if other == 'given':
        vars['s'] = Int()

    def assume(v):
        n = 'o' if kind == 'integer' else 'u'
        a = [v[n] >= -4, v[n] <= J + 4]
        if A == 't':
            a += [v['t'] >= 1, v['t'] <= 2 ** 10]
        if other == 'given':
            a += [v['s'] >= 1, v['s'] <= 2 ** 10]
        return a
    explore_free(r, key, body, vars, assume, ints=True, seconds=200)


def quality(r, form, kind, which):
    key = '%s as %s of kind %s' % (which, form, kind)
    r.bound('%s: all values from -1000 to 1000' % key)

    def body(v):
        a, b, c = v['a'], v['b'], v['c']
        q = dict(single=a, one=(a,), two=(a, b), three=(a, b, c), list=[a, b], none=None, text='8')[form]
        if which == 'Q':
            S = base(2, 16, Q=q)
            S.shape = (16,)
            o, err = attempt(lambda: S.Q)
        else:
            S = base(2, 16, True, Q=1, Q_fr=q)
            from kymatio.scattering1d.frontend.base_frontend import ScatteringBase1D
            keep = ScatteringBase1D.create_filters
            ScatteringBase1D.create_filters = lambda s: None
            try:
                with stubs(1):
                    o, err = attempt(lambda: (S.build(), S.Q_fr)[1])
            finally:
                ScatteringBase1D.create_filters = keep
        n = dict(single=1, one=1, two=2, three=3).get(form, 0)
        ok = {'Q': ('single', 'one', 'two'), 'Q_fr': ('single', 'one')}[which]
        if form not in ok or (kind == 'real' and form == 'single'):
            return [('refused', err is not None)]
        good = AND(*[x >= 1 for x in (a, b, c)[:n]])
        if err is not None:
            return [('at least one is accepted', NOT(good))]
        exp = {'single': (a, 1), 'one': (a, 1), 'two': (a, b)}[form] if which == 'Q' else (a,)
        return [('never below one', good), ('form', isinstance(o, tuple) and len(o) == len(exp))] + [
            ('value %d' % i, x == y) for i, (x, y) in enumerate(zip(o, exp))]
    k = Int if kind == 'integer' else Real
    explore_free(r, key, body, dict(a=k(), b=k(), c=k()), lambda v: [x for n in 'abc' for x in (v[n] >= -1000, v[n] <= 1000)], ints=True,
                 samples=[dict(a=1, b=1, c=1), dict(a=8, b=2, c=1), dict(a=0, b=2, c=1), dict(a=2, b=0, c=1)] if kind == 'integer' else [])


def size(r, form):
    key = 'shape as %s' % form
    r.bound('%s: every length 4..2^12' % key)

    def body(v):
        n = v['n']
        sh = {'integer': n, 'one': (n,), 'two': (n, n), 'three': (n, n, n), 'list': [n], 'text': '64', 'real': 64.5, 'none': None, 'empty': ()}[form]
        S = base(2, sh)
        with stubs(1):
            try:
                o, err = attempt(S.build)
            except IndexError as e:      # an empty tuple
                err = e
        if form not in ('integer', 'one'):
            return [('refused', err is not None)]
        return [('accepted', err is None), ('form', isinstance(S.shape, tuple) and len(S.shape) == 1), ('value', S.shape[0] == n)]
    explore_free(r, key, body, dict(n=Int()), lambda v: [v['n'] >= 4, v['n'] <= 2 ** 12], ints=True, samples=[dict(n=5)])


FM = ['array', 'list', 'dict']


def formats(r, average, joint, average_fr='local', via='check'):
    """unknown formats and array output without averaging"""
    key = '%s output formats, %s averaging%s%s' % ('JTFS' if joint else '1D', average, ', %s along frequency' % average_fr if joint else '',
                                                 '' if via == 'check' else ', ' + via)
    r.bound('%s: every text of up to 8 printable characters as out_type%s' % (key, ' and format' if joint else ''))
    A = {'local': None, 'none': 0, 'global': 'global'}

    def body(v):
        k = dict(T=A[average], out_type=v['o'])
        if joint:
            k.update(F=A[average_fr], format=v['f'])
        if via == 'check':
            S = base(2, 8, joint, **k)
            S.shape = (8,)
            _, err = attempt(S._check_runtime_args)
        else:
            from . import casc
            S = casc.make1d(via, J=2, shape=8, Q=1, **k) if not joint else casc.makej(via, J=2, J_fr=1, shape=8, Q=1, **k)
            x = NATIVE[via](np.arange(8.) / 8)
            o, err = attempt(lambda: S(x))
        eq = (lambda a, s: isstr(a, s))
        known = False
        for f in FM:
            e = eq(v['o'], f)
            known = e if known is False else (known if e is False else (True if e is True or known is True else known | e))
        good = known
        if average == 'none':
            good = AND(good, NOT(eq(v['o'], 'array')))
        if joint:
            fj, ft = eq(v['f'], 'joint'), eq(v['f'], 'time')
            e = ft if fj is False else (fj if ft is False else (True if ft is True or fj is True else fj | ft))
            good = AND(good, e)
            if average_fr == 'none':
                good = AND(good, NOT(AND(fj, eq(v['o'], 'array'))))
        if err is not None:
            return [('a known format is accepted', NOT(good))]
        out = [('an unknown or impossible format is refused', good)]
        if via != 'check' and not joint:
            t = 'array' if not isinstance(o, (list, dict)) else type(o).__name__
            out.append(('the format is the one asked for', eq(v['o'], t)))
        return out
    vars = dict(o=Str(8))
    smp = [dict(o=s, f='time') for s in ('array', 'list', 'dict', 'Array', 'arra', '', 'tuple', 'lists')]
    if joint:
        vars['f'] = Str(8)
        smp += [dict(o='list', f=s) for s in ('joint', 'Joint', '', 'time ')]
    explore_free(r, key, body, vars, samples=[{k: x for k, x in s.items() if k in vars} for s in smp], arrays=False)


def _jx(a):
    import jax.numpy as jn
    return jn.asarray(a)


def _tf(a):
    import tensorflow as tf
    return tf.constant(a.astype('float32'))


def _to(a):
    import torch
    return torch.from_numpy(a.astype('float32'))


NATIVE = dict(numpy=lambda a: a, torch=_to, tensorflow=_tf, jax=_jx)


def scalar(r, backend):
    """an input without any axis is refused"""
    from . import casc
    for joint in (False, True):
        key = '%s %s: input without axis is refused' % (backend, 'JTFS' if joint else '1D')
        S = casc.makej(backend, J=2, J_fr=1, shape=8, Q=1) if joint else casc.make1d(backend, J=2, shape=8, Q=1)
        try:
            S(NATIVE[backend](np.array(1.5)))
        except Exception:
            r.ok(key)
        else:
            r.violation(key, 'accepted', dict(backend=backend))


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = []

    def add(fn, cost=2, **k):
        out.append(job('checks.c12', fn, cost, limit=400, **k))
    for J in ([0, 3] if q else range(0, 20 if deep else 12)):
        for k in ('none', 'text', 'integer', 'real'):
            for a in (('T', 'F') if J == 3 else ('T',)):
                add('parse', J=J, kind=k, alias=a)
    for J in ((1, 4) if q else range(0, 12 if deep else 8)):
        for k in ('integer', 'real', 'text'):
            add('props', 8, J=J, kind=k)
    for J in ((3,) if q else (0, 1, 2, 3, 5, 8) + ((4, 6, 10, 12) if deep else ())):
        for av in ('local', 'none', 'global'):
            for k in ('integer', 'real'):
                add('stride', 4, J=J, average=av, kind=k, axis='t')
                add('stride', 4, J=J, average=av, kind=k, axis='f')
            for k in ('integer', 'real'):
                for o in ('default', 'given'):
                    add('oversampling', 4, J=J, average=av, kind=k, other=o)
        for o in ('default', 'given'):
            add('oversampling', 9, J=J, average='length', kind='integer', other=o)
    for w in ('Q', 'Q_fr'):
        for f in ('single', 'one', 'two', 'three', 'list', 'none', 'text'):
            for k in (('integer', 'real') if f in ('single', 'one', 'two') else ('integer',)):
                add('quality', form=f, kind=k, which=w)
    for f in ('integer', 'one', 'two', 'three', 'list', 'text', 'real', 'none', 'empty'):
        add('size', form=f)
    for av in ('local', 'none', 'global'):
        add('formats', average=av, joint=False)
        for fr in ('local', 'none', 'global'):
            add('formats', average=av, joint=True, average_fr=fr)
    for b in BACKENDS:
        add('formats', 6, average='local', joint=False, via=b)
        add('formats', 6, average='none', joint=False, via=b)
        add('scalar', 5, backend=b)
    return out
