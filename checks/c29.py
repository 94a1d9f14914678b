"""C29: scikit-learn transformers.  Rows of a flattened batch: the real transformer and the real NumPy frontend run on the
same symbolic signals; every feature of every row must be the corresponding coefficient for all signals."""
from .fam import *
from vk.core import PublicFailure

ASSUMPTIONS = ASSUME + ['filters are generic values installed in both; the filters the transformer builds are compared separately']
NAMES = {'1d': 'Scattering1D', '2d': 'Scattering2D', '3d': 'HarmonicScattering3D', 'jtfs': 'TimeFrequencyScattering'}


def leaves(o, path=()):
    if isinstance(o, dict):
        for k in sorted(o, key=str):
            yield from leaves(o[k], path + (k,))
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    else:
        yield path, o


def bank(kind, S):
    if kind == '3d':
        return dict(leaves(dict(f=S.filters, g=getattr(S, 'gaussian_filters', None))))
    if kind == '2d':
        return dict(leaves(dict(phi=S.phi, psi=S.psi)))
    d = dict(phi=S.phi_f, psi1=S.psi1_f, psi2=S.psi2_f)
    if kind == 'jtfs':
        d['fr'] = S.filters_fr
    return dict(leaves(d))


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return a == b


def flat(x):
    if is_sym(x):
        return SymArray(obj(x).reshape(-1), np.dtype('float64'))
    return np.asarray(x).reshape(-1)


def stack(rows):
    if any(is_sym(x) for x in rows):
        return SymArray(np.stack([obj(x) for x in rows]), np.dtype('float64'))
    return np.stack(rows)


def transformer(r, kind, cfg, rows):
    K = shim.load('kymatio.sklearn')
    info = dict(kind=kind, cfg=cfg)
    name = 'sklearn %s %s' % (kind, nm(cfg))
    S = make(kind, 'numpy', **cfg)
    raw = MAKE[kind]('numpy', **cfg)
    try:
        M = getattr(K, NAMES[kind])(**cfg)
    except Exception as e:
        raise PublicFailure(name + ': can be constructed', '%s: %s' % (type(e).__name__, e), info)
    a, b = bank(kind, raw), bank(kind, M)
    bad = [p for p in set(a) | set(b) if p not in a or p not in b or not eq(a[p], b[p])]
    if bad:
        r.violation(name + ': has the filters of the NumPy frontend', 'differ: %s' % sorted(map(str, bad))[:4], info)
    else:
        r.ok(name + ': has the filters of the NumPy frontend', len(a))
    # a copy as scikit-learn makes it (cross-validation and grid search work on clones)
    from sklearn.base import clone
    try:
        cl = clone(M)
    except Exception as e:
        raise PublicFailure(name + ': can be cloned', '%s: %s' % (type(e).__name__, e), info)
    b = bank(kind, cl)
    if set(a) != set(b) or not all(eq(a[p], b[p]) for p in a):
        r.violation(name + ': its clone has the same filters', 'they differ', info)
    else:
        r.ok(name + ': its clone has the same filters', len(a))
    install(kind, cl, 'numpy')
    install(kind, M, 'numpy')
    sig = prepad_shape(kind, cfg)
    d = int(np.prod(sig))
    r.bound('%s rows %s' % (name, rows))

    def ref(X):
        """the definition of the features: one flattened transform per signal"""
        flatX = obj(X).reshape(-1, d) if is_sym(X) else X.reshape(-1, d)
        out = []
        for q in range(len(flatX)):
            s = flatX[q].reshape((1,) + sig)
            s = SymArray(s, np.dtype('float64')) if is_sym(X) else s
            out.append(flat(S(s)))
        o = stack(out)
        lead = X.shape[:-1]
        return SymArray(obj(o).reshape(lead + (-1,)), np.dtype('float64')) if is_sym(o) else o.reshape(lead + (-1,))

    from sklearn.pipeline import Pipeline

    def uses(X):
        yield 'predict', lambda: M.predict(X)
        yield 'transform', lambda: M.transform(X)
        yield 'transform by a clone', lambda: cl.transform(X)
        yield 'fit_transform', lambda: M.fit_transform(X)
        yield 'fit, then transform', lambda: M.fit(X).transform(X)
        yield 'fit with labels, then predict', lambda: M.fit(X, np.arange(len(X))).predict(X)
        if X.ndim == 2:
            yield 'as a step of a pipeline', lambda: Pipeline([('scattering', M)]).fit(X).transform(X)
            yield 'last step of a pipeline, predict', lambda: Pipeline([('scattering', M)]).fit(X).predict(X)
    for lead in rows:
        key = '%s rows %s: features = coefficients' % (name, lead)

        def prog(X):
            before = X.copy()
            o = [ref(X), [(n, f()) for n, f in uses(X)]]
            return o + [X, before]

        def rel(o, X):
            return [(n, f, o[0]) for n, f in o[1]] + [('the input afterwards', o[2], o[3])]
        check_rel(r, key, prog, rel, [In('x', tuple(lead) + (d,))], 'numpy', info=dict(info, rows=lead), tol=tol(kind, 'numpy'))
    # fitting learns nothing
    snap = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in bank(kind, M).items()}
    at = {k: repr(v) for k, v in vars(M).items()}
    X = np.random.RandomState(3).randn(2, d)
    for what, f in [('fit()', lambda: M.fit()), ('fit(X)', lambda: M.fit(X)), ('fit(X, y)', lambda: M.fit(X, np.array([0, 1])))]:
        key = '%s: %s returns the transformer unchanged' % (name, what)
        try:
            o = f()
        except Exception as e:
            r.violation(key, '%s: %s' % (type(e).__name__, e), info)
            continue
        new = bank(kind, M)
        if o is not M:
            r.violation(key, 'returns %s' % type(o).__name__, info)
        elif {k: repr(v) for k, v in vars(M).items()} != at or set(snap) != set(new) or not all(eq(snap[k], new[k]) for k in snap):
            r.violation(key, 'its state changed', info)
        else:
            r.ok(key)


Q = [('1d', dict(J=2, shape=8, Q=1), [(), (1,), (3,)]), ('1d', dict(J=2, shape=7, Q=2, T='global'), [(2,), (2, 2)]),
     ('1d', dict(J=3, shape=9, Q=1, T=3, max_order=1), [(2,)]), ('1d', dict(J=3, shape=8, Q=(2, 1), T=6, stride=2), [(1,)]),
     ('1d', dict(J=3, shape=9, Q=1, oversampling=1), [(1,)]), ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1, T='global', F=0), [(1,)]),
     ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1, F='global', stride=1), [(1,)]),
     ('2d', dict(J=1, shape=(3, 4), L=2), [(), (2,)]), ('2d', dict(J=2, shape=(4, 5), L=1), [(2,)]),
     ('2d', dict(J=1, shape=(4, 5), L=1, pre_pad=True), [(2,)]) ,
     ('3d', dict(J=1, shape=(2, 3, 2), L=1, integral_powers=(1., 2.)), [(2,)]), ('3d', dict(J=0, shape=(2, 2, 2), L=2, rotation_covariant=False, integral_powers=(1., 2.)), [(1,)]),
     ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1), [(), (2,)]), ('jtfs', dict(J=2, shape=7, Q=1, J_fr=1, format='joint'), [(2,)])]
T = [('1d', dict(J=3, shape=16, Q=(2, 1), stride=2), [(2, 2)]), ('1d', dict(J=3, shape=13, Q=1, oversampling=1), [(4,)]),
     ('2d', dict(J=2, shape=(6, 9), L=2), [(2, 2)]), ('2d', dict(J=3, shape=(8, 8), L=1, max_order=1), [(2,)]),
     ('3d', dict(J=2, shape=(2, 2, 3), L=1, integral_powers=(1., 2.), max_order=2), [(2,), (1, 2)]),
     ('jtfs', dict(J=3, shape=11, Q=1, J_fr=2, stride=2, F=2, format='joint'), [(2,)]),
     ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1, T='global', F='global', format='joint'), [(3,)])]


def jobs(tier):
    cases = Q + T
    return [job('checks.c29', 'transformer', cost=10, tag='sklearn %s %s' % (k, nm(c)), limit=600, kind=k, cfg=c, rows=b)
            for k, c, b in cases]
