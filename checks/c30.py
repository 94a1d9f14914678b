"""C30: frontend and backend selection.  The real entry points and constructors run on symbolic names (every printable string
up to a bound); the real filterbank check runs on symbolic frequencies and scales."""
import builtins
import contextlib
import importlib
import inspect
import os
from .free import *
from . import fam
from vk.sstr import TOKEN

ASSUMPTIONS = ['names are strings of printable ASCII characters',
               'importing a module of kymatio succeeds iff the module exists and imports in this environment (real import of the '
               'determined name); importing any other symbolic name fails']
CLASSES = {'1d': ('Scattering1D', 'scattering1d'), 'jtfs': ('TimeFrequencyScattering', 'scattering1d'),
           '2d': ('Scattering2D', 'scattering2d'), '3d': ('HarmonicScattering3D', 'scattering3d')}
FRONTENDS = ('torch', 'numpy', 'tensorflow', 'jax', 'keras', 'sklearn')


def public(front, kind):
    """the class users import from kymatio.<frontend>"""
    return getattr(importlib.import_module('kymatio.' + front), CLASSES[kind][0], None)


def existing():
    root = os.path.join(shim.REPO, 'kymatio')
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py'):
                m = os.path.relpath(os.path.join(d, f), shim.REPO)[:-3].replace(os.sep, '.')
                out.append(m[:-9] if m.endswith('.__init__') else m)
    return sorted(out)


@contextlib.contextmanager
def imports():
    """import_module on a symbolic name: fork over the modules that exist"""
    keep = importlib.import_module
    mods = existing()

    def imp(name, package=None):
        if not TOKEN.search(str.__str__(name)):
            return keep(str(name), package)
        e = decode(name)
        for m in mods:
            if sb(e == z3.StringVal(m)):
                return keep(m)
        raise ModuleNotFoundError('No module named %s' % name)
    importlib.import_module = imp
    try:
        yield
    finally:
        importlib.import_module = keep


def ci(x, name):
    """x spells `name` in any mixture of cases (decided character by character)"""
    if not isinstance(x, SStr):
        return len(x) == len(name) and all(a == b or (a.isalpha() and ord(a) ^ 32 == ord(b)) for a, b in zip(x, name))
    return SBool(z3.InRe(x.e, z3.Concat(*[z3.Union(z3.Re(c), z3.Re(c.upper())) if c.isalpha() else z3.Re(c) for c in name])))


def dispatch(r, kind, how):
    """kymatio.<Transform>(frontend=<any name>, ...)"""
    km = shim.load('kymatio')
    for f in FRONTENDS:
        importlib.import_module('kymatio.' + f)
    shim.load()
    entry = getattr(km, CLASSES[kind][0])
    avail = {f: public(f, kind) for f in FRONTENDS}
    key = 'entry %s, %s' % (CLASSES[kind][0], how)
    r.bound(key + ': every frontend name of up to 11 printable characters, any parameters')
    if kind in ('1d', '2d'):
        missing = [f for f in FRONTENDS if avail[f] is None]
    else:
        missing = [f for f in FRONTENDS if avail[f] is None and f != 'keras']
    if missing:
        r.violation(key + ': frontends', 'no transform for %s' % missing, dict(kind=kind))
        return
    sent = [object() for _ in range(4)]

    def args():
        if how == 'by position':
            return (sent[0], sent[1]), {}
        if how == 'mixed':
            return (sent[0],), {'shape': sent[1], 'alpha': sent[2], 'backend': sent[3]}
        return (), {'J': sent[0], 'shape': sent[1], 'max_order': sent[2], 'out_type': sent[3]}

    def body(v):
        got = []
        keep = []

        def rec(cl):
            def __init__(self, *a, **k):
                got.append((cl, self, a, k))
                for c in type(self).__mro__:        # what the base class of the library itself needs
                    if not c.__module__.startswith('kymatio') and c is not object:
                        c.__init__(self)
                        break
            return __init__
        for cl in set(avail.values()) - {None}:
            keep.append((cl, '__init__' in vars(cl), vars(cl).get('__init__')))
            cl.__init__ = rec(cl)
        a, k = args()
        err, S = None, None
        kw = dict(k)
        if how != 'default':
            kw['frontend'] = v['name']
        try:
            with imports():
                try:
                    S = entry(*a, **kw)
                except (Infeasible, PathLimit, Unsupported, z3.Z3Exception):
                    raise
                except Exception as e:
                    err = e
        finally:
            for cl, own, old in keep:
                if own:
                    cl.__init__ = old
                else:
                    del cl.__init__
        if how == 'default':
            return [('numpy by default', err is None and type(S) is avail['numpy']),
                    ('parameters arrive unchanged', len(got) == 1 and got[0][2] == a and got[0][3] == k)]
        out = []
        if err is None:
            f = [n for n in FRONTENDS if type(S) is avail[n]]
            out += [('builds a transform of the library', len(f) == 1)]
            if f:
                out += [('builds the frontend that was named', ci(v['name'], f[0]))]
            out += [('is constructed once', len(got) == 1 and got[0][1] is S and got[0][0] is type(S)),
                    ('parameters arrive unchanged', len(got) == 1 and len(got[0][2]) == len(a) and all(x is y for x, y in zip(got[0][2], a))
                     and set(got[0][3]) == set(k) and all(got[0][3][x] is k[x] for x in k))]
        else:
            c = None
            for n in FRONTENDS:
                if avail[n] is not None:
                    e = ci(v['name'], n)
                    c = e if c is None else (c | e)
            out += [('an existing frontend is accepted', (not c) if isinstance(c, bool) else ~c), ('nothing is constructed on refusal', not got)]
        return out
    smp = [dict(name=n) for n in ('torch', 'NumPy', 'TensorFlow', 'JAX', 'kerAS', 'Sklearn', 'nump', 'numpyy', '', 'np', 'entry', ' torch')]
    explore_free(r, key, body, dict(name=Str(11)), samples=smp, timeout_ms=60000, arrays=False)


SMALL = {'1d': dict(J=2, shape=8, Q=1), 'jtfs': dict(J=2, J_fr=1, Q=1, shape=8), '2d': dict(J=1, shape=(2, 2), L=1),
         '3d': dict(J=0, shape=(2, 2, 2), L=1)}


def spec_prefix(front):
    return 'numpy' if front == 'sklearn' else front


def backend_name(r, kind, front):
    """the frontends' constructor on an arbitrary backend name"""
    importlib.import_module('kymatio.' + front)
    shim.load()
    cl = public(front, kind)
    key = '%s %s: backend by name' % (front, CLASSES[kind][0])
    r.bound(key + ': every name of up to 14 printable characters')
    fam_ = spec_prefix(front)
    pkg = 'kymatio.%s.backend.' % CLASSES[kind][1]

    def importable(n):
        try:
            importlib.import_module(pkg + n + '_backend')
            return True
        except ImportError:
            return False
    names = [m[len(pkg):-8] for m in existing() if m.startswith(pkg) and m.endswith('_backend')]
    allowed = [n for n in names if n.startswith(fam_) and importable(n)]
    if fam_ not in allowed:
        r.violation(key, 'the frontend has no backend of its own name', dict(kind=kind, front=front))
        return
    r.note('backends of %s %s here: %s' % (front, kind, allowed)) if hasattr(r, 'note') else None

    def body(v):
        err, S = None, None
        try:
            with imports():
                S = cl(backend=v['name'], **SMALL[kind])
        except ImportError as e:
            err = e
        if err is None:
            be = S.backend
            mine = [n for n in allowed if be is importlib.import_module(pkg + n + '_backend').backend]
            return [('uses a backend of this frontend and transform', len(mine) == 1),
                    ('uses the backend that was named', sb(decode(v['name']) == z3.StringVal(mine[0])) if mine else False)]
        return [('a backend of this frontend is accepted', SBool(z3.And(*[decode(v['name']) != z3.StringVal(n) for n in allowed])))
                if isinstance(v['name'], SStr) else ('a backend of this frontend is accepted', v['name'] not in allowed)]

    def conc(v):
        return body(v)
    explore_free(r, key, body, dict(name=Str(14)), samples=[dict(name=n) for n in (fam_, fam_ + '_', 'x' + fam_, fam_[:-1], fam_.upper(), '',
                                                                                       'numpy' if fam_ != 'numpy' else 'torch')], arrays=False)


class Named:
    """a backend object with an arbitrary name; everything else is the real backend"""

    def __init__(self, real, name):
        self.__dict__['_real'], self.__dict__['name'] = real, name

    def __getattr__(self, k):
        return getattr(self._real, k)


def backend_object(r, kind, front):
    importlib.import_module('kymatio.' + front)
    shim.load()
    cl = public(front, kind)
    fam_ = spec_prefix(front)
    real = importlib.import_module('kymatio.%s.backend.%s_backend' % (CLASSES[kind][1], fam_)).backend
    key = '%s %s: backend object' % (front, CLASSES[kind][0])
    r.bound(key + ': every name of up to 14 printable characters')

    def body(v):
        be = Named(real, v['name'])
        try:
            S = cl(backend=be, **SMALL[kind])
        except ImportError:
            return [('a backend of this frontend is accepted', (~SBool(z3.PrefixOf(fam_, v['name'].e))) if isinstance(v['name'], SStr)
                     else not v['name'].startswith(fam_))]
        return [('the object is used', S.backend is be), ('only a backend of this frontend', SBool(z3.PrefixOf(fam_, v['name'].e))
                 if isinstance(v['name'], SStr) else v['name'].startswith(fam_))]
    explore_free(r, key, body, dict(name=Str(14)), samples=[dict(name=n) for n in (fam_, fam_ + '_x', 'x' + fam_, '', 'cuda')], arrays=False)


def banks(r, n1, n2, how):
    """construction refuses exactly the filterbanks in which a filter is too close to Nyquist or a later one cannot follow"""
    base = shim.load('kymatio.frontend.base_frontend', 'kymatio.scattering1d.frontend.base_frontend')
    b1 = base[1]
    key = 'filterbank check %s, %d first-order and %d second-order filters' % (how, n1, n2)
    top = 6
    r.bound(key + ': all real frequencies, all scales 0..%d' % top)
    vars = {}
    for i in range(n1):
        vars['x%d' % i], vars['j%d' % i] = Real(), Int()
    for i in range(n2):
        vars['y%d' % i], vars['k%d' % i] = Real(), Int()

    def assume(v):
        return [c for n in vars if n[0] in 'jk' for c in (v[n] >= 0, v[n] <= top)]

    def p2(j):
        """2**-j"""
        if isinstance(j, SInt):
            e = z3.RealVal(1)
            for k in range(top, 0, -1):
                e = z3.If(j.e == k, z3.Q(1, 2 ** k), e)
            return e
        return 2.0 ** -j

    def bad(v, ex):
        cs = []
        sym = isinstance(v['x0'] if n1 else v['y0'], poly.Z)
        R = (lambda z: C.explorer.zx.real(z)) if sym else (lambda z: z)
        I = (lambda j: (j.e if isinstance(j, SInt) else j)) if sym else (lambda j: j)
        for i in range(n1):
            cs.append(R(v['x%d' % i]) >= p2(v['j%d' % i]) / 2 if sym else v['x%d' % i] >= Fraction(1, 2 ** (v['j%d' % i] + 1)))
            for q in range(n2):
                a, b = I(v['j%d' % i]) < I(v['k%d' % q]), R(v['x%d' % i]) <= R(v['y%d' % q])
                cs.append(z3.And(a, b) if sym else (a and b))
        return SBool(z3.Or(*cs)) if sym else any(cs)

    def body(v):
        psi1 = [dict(xi=v['x%d' % i], sigma=0.1, j=v['j%d' % i], levels=[]) for i in range(n1)]
        psi2 = [dict(xi=v['y%d' % i], sigma=0.1, j=v['k%d' % i], levels=[]) for i in range(n2)]
        phi = dict(xi=0, sigma=0.1, j=0, levels=[])
        err = None
        try:
            if how == 'itself':
                base[0].ScatteringBase._check_filterbanks(psi1, psi2)
            else:
                from kymatio.scattering1d.filter_bank import scattering_filter_factory
                if how == 'at construction':
                    S = b1.ScatteringBase1D(2, 8)
                    with Swap((scattering_filter_factory, lambda *a, **k: (phi, psi1, psi2))):
                        S.build()
                        b1.ScatteringBase1D.create_filters(S)
                else:
                    S = b1.TimeFrequencyScatteringBase(J=2, J_fr=1, Q=1, shape=8)
                    first = []

                    def fac(*a, **k):
                        return (phi, psi1, psi2)
                    with Swap((scattering_filter_factory, fac)):
                        keep = b1.ScatteringBase1D.create_filters
                        b1.ScatteringBase1D.build(S)
                        b1.ScatteringBase1D.create_filters(S)
        except AssertionError as e:
            err = e
        b = bad(v, None)
        if err is None:
            return [('an impossible filterbank is refused', ~b if isinstance(b, SBool) else not b)]
        return [('a sound filterbank is accepted', b)]
    smp = []
    explore_free(r, key, body, vars, assume, samples=smp)


def built(r, kind, front, cfg):
    """the transform built through the entry point is the transform of the frontend"""
    km = shim.load('kymatio')
    key = 'entry %s frontend=%s = direct: %s' % (kind, front, fam.nm(cfg))
    r.bound(key)
    S = fam.make(kind, front, **cfg)
    try:
        E = getattr(km, CLASSES[kind][0])(frontend=front.capitalize(), **cfg)
    except Exception as e:
        r.violation(key, 'cannot be built: %s: %s' % (type(e).__name__, e), dict(kind=kind, front=front, cfg=cfg))
        return
    fam.install(kind, E, front)
    if type(E) is not type(S):
        r.violation(key, 'type %s instead of %s' % (type(E), type(S)), dict(kind=kind, front=front, cfg=cfg))
        return
    check_rel(r, key, lambda x: [fam.norm(kind, E(x)), fam.norm(kind, S(x))],
              lambda o, x: [('number of coefficients', len(o[0]), len(o[1]))] + [row for (la, a), (lb, b) in zip(*o)
                                                                                  for row in (('label', la, lb), (str(la), a, b))],
              [In('x', (2,) + fam.shape(kind, cfg))], front, tol=fam.tol(kind, front), info=dict(kind=kind, cfg=cfg))


def jobs(tier):
    q = tier == 'quick'
    out = [job('checks.c30', 'dispatch', 6, kind=k, how=h) for k in CLASSES for h in ('by name', 'by position', 'mixed', 'default')]
    for k in CLASSES:
        for f in ('numpy', 'torch', 'tensorflow', 'jax', 'sklearn'):
            out.append(job('checks.c30', 'backend_name', 5, kind=k, front=f))
            out.append(job('checks.c30', 'backend_object', 3, kind=k, front=f))
    for n1, n2 in [(1, 0), (1, 1), (2, 1), (1, 2), (2, 2)] + ([] if q else [(3, 1), (3, 2), (2, 3)]):
        for how in ('itself', 'at construction', 'at construction of the joint transform'):
            if how == 'itself' or (n1, n2) in ((1, 1), (2, 1)):
                out.append(job('checks.c30', 'banks', 2 + n1 * n2, n1=n1, n2=n2, how=how))
    cf = [('1d', dict(J=2, shape=7, Q=2, T=2)), ('2d', dict(J=1, shape=(3, 4), L=2, max_order=1)),
          ('3d', dict(J=1, shape=(2, 2, 2), L=1, integral_powers=(1., 2.))), ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1, format='joint'))]
    out += [job('checks.c30', 'built', 4, kind=k, front=f, cfg=c) for k, c in cf for f in ('numpy', 'torch', 'tensorflow', 'jax')
            if not q or (k, f) in (('1d', 'numpy'), ('2d', 'torch'), ('3d', 'jax'), ('jtfs', 'tensorflow'), ('1d', 'torch'))]
    return out
