"""C25: the backends compute the same function.  The same symbolic signal and the same symbolic-run real code on NumPy and
on another backend; shapes, labels and order must coincide and every coefficient must be equal for all signals.  The
filters each frontend builds are compared with NumPy's at the precision they are stored with."""
from .fam import *
from vk.equal import make_sym, values, evaluate, close, spec_out, norm_sk, _ser, ImplError

ASSUMPTIONS = ASSUME + ['filters are independent generic values common to both backends; the filters each frontend builds are '
                        'compared separately, up to the rounding of the precision they are stored with']


def lists(o):
    """arrays and plain labels of a result, whatever the container"""
    if isinstance(o, dict):
        return [(('key',) + tuple(k), o[k]) for k in o]
    if isinstance(o, (list, tuple)):
        out = []
        for p in o:
            lab = tuple((k, plain(p[k])) for k in sorted(p) if k != 'coef')
            out.append((lab, p['coef']))
        return out
    return [('array', o)]


def plain(v):
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    if hasattr(v, 'item') and getattr(v, 'shape', None) == ():
        return v.item()
    if isinstance(v, np.ndarray):
        return tuple(v.tolist())
    return v


def pair(r, kind, backend, cfg, batch):
    d, d0 = D.get(backend), D.get('numpy')
    key = '%s %s = numpy: %s' % (kind, backend, nm(cfg))
    r.bound('%s %s batch %s' % (kind, nm(cfg), batch))
    S0 = make(kind, 'numpy', **cfg)
    S = make(kind, backend, **cfg)
    ins = [In('x', tuple(batch) + prepad_shape(kind, cfg))]
    t = tol(kind, backend) or d.tol
    info = dict(job=r.job, kind=kind, backend=backend, cfg=cfg)
    labels = {}

    def prog(T, who):
        def f(x):
            rows = lists(T(x))
            labels[who] = [l for l, _ in rows]
            return [a for _, a in rows]
        return f

    def run(dd, T, who, v, sym):
        sk, lv = (dd.sym if sym else dd.conc)(prog(T, who), [x.copy() if hasattr(x, 'copy') else x for x in v], False)
        return lv

    def wrong(v):
        try:
            b = run(d0, S0, 'n', v, False)
        except ImplError as ex:
            return 'NumPy raises %s' % ex
        try:
            a = run(d, S, 'b', v, False)
        except ImplError as ex:
            return '%s raises %s, NumPy does not' % (backend, ex)
        if labels['n'] != labels['b']:
            q = [i for i, (x, y) in enumerate(zip(labels['n'], labels['b'])) if x != y]
            return 'labels differ: %s instead of %s' % (([labels['b'][q[0]]], [labels['n'][q[0]]]) if q
                                                       else (len(labels['b']), len(labels['n'])))
        for q, (x, y) in enumerate(zip(a, b)):
            if x.shape != y.shape:
                return 'coefficient %s: shape %s instead of %s' % (labels['n'][q], x.shape, y.shape)
            if not close(x, y, t):
                i = np.unravel_index(np.argmax(np.abs(x - y)), x.shape)
                return 'coefficient %s at %s: %s instead of %s' % (labels['n'][q], tuple(map(int, i)), x[i], y[i])
        return None

    def confirm(what, over=None):
        for seed, ov in ([(11, over)] if over else []) + [(s, None) for s in (11, 12, 13)]:
            v, _ = values(ins, d, seed, ov)
            bad = wrong(v)
            if bad:
                r.violation(key, '%s; on the real code: %s' % (what, bad), dict(info, values=_ser(v), found=bad))
                return True
        return False
    poly.reset(4, 'opaque')
    vals, env = values(ins, d, 1000 + r.seed)
    try:
        with r.encoding():
            syms = make_sym(ins, d)
            b = run(d0, S0, 'n', syms, True)
            a = run(d, S, 'b', syms, True)
    except (ImplError, Unsupported) as ex:
        if not confirm('%s' % ex):
            r.inconclusive(key, str(ex))
        return
    bad = wrong(vals)
    if bad:
        r.violation(key, 'on the real code: %s' % bad, dict(info, values=_ser(vals), found=bad))
        return
    ev = evaluate(a, env)
    cv = run(d, S, 'b', vals, False)
    if not (len(ev) == len(cv) and all(close(x, y, max(t, 1e-7) * 10) for x, y in zip(cv, ev))):
        r.inconclusive(key, 'the encoding does not reproduce the real run')
        return
    r.validated += 1
    if labels['n'] != labels['b'] or [x.shape for x in a] != [y.shape for y in b]:
        if not confirm('labels or shapes differ'):
            r.inconclusive(key, 'labels or shapes differ symbolically only')
        return
    tot = 0
    for q, (x, y) in enumerate(zip(a, b)):
        st, extra = prove.prove_equal(x, y)
        if st == 'proved':
            tot += int(x.size)
            continue
        if not confirm('solver: coefficient %s' % (labels['n'][q],), (extra[1] if extra else {}) or None):
            r.inconclusive(key, '%s: %s' % (labels['n'][q], st))
        return
    r.ok(key, tot)
    r.sample(dict(obligation=key, coefficients=len(a)))


def leaves(o, path=()):
    """(path, array) of every filter level held by a transform"""
    if isinstance(o, dict):
        for k in sorted(o, key=str):
            yield from leaves(o[k], path + (k,))
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    else:
        yield path, o


def host(v):
    if hasattr(v, 'detach'):
        v = v.detach().cpu().numpy()
    return np.asarray(v)


def built(kind, backend, cfg):
    S = MAKE[kind](backend, **cfg)
    if kind == '3d':
        o = dict(filters=S.filters, gauss=getattr(S, 'gaussian_filters', None))
    elif kind == '2d':
        o = dict(phi=S.phi, psi=S.psi)
    else:
        o = dict(phi=S.phi_f, psi1=S.psi1_f, psi2=S.psi2_f)
        if kind == 'jtfs':
            o['fr'] = S.filters_fr
    return S, dict(leaves(o))


ATTRS = ['J', 'Q', 'T', 'L', 'F', 'J_fr', 'Q_fr', 'average', 'average_fr', 'pad_left', 'pad_right', '_N_padded', 'ind_start', 'ind_end',
         'log2_T', 'log2_F', 'stride', 'stride_fr', '_M_padded', '_N_padded_fr', 'max_order', 'out_type', 'format', 'shape', 'pre_pad',
         'sigma_0', 'rotation_covariant', 'method', 'integral_powers', 'points', 'pow']


def filters(r, kind, backend, cfg):
    """what the frontends build: same structure, same scalars, same values up to storage precision"""
    key = '%s %s builds the filters of numpy: %s' % (kind, backend, nm(cfg))
    S0, a = built(kind, 'numpy', cfg)
    S, b = built(kind, backend, cfg)
    n = 0
    if set(a) != set(b):
        r.violation(key, 'filter structure differs: %s' % sorted(map(str, set(a) ^ set(b)))[:4], dict(kind=kind, cfg=cfg, backend=backend))
        return
    for p in a:
        x, y = a[p], host(b[p])
        if x is None:
            continue
        if not isinstance(x, np.ndarray):
            if not (plain(x) == plain(b[p]) or (isinstance(x, float) and np.isclose(x, float(y)))):
                r.violation(key, '%s is %s instead of %s' % (p, b[p], x), dict(kind=kind, cfg=cfg, backend=backend))
                return
            n += 1
            continue
        if backend == 'torch':
            y = y[..., 0] if y.shape[-1] == 1 and y.ndim == x.ndim + 1 else (y[..., 0] + 1j * y[..., 1] if y.ndim == x.ndim + 1 else y)
        if x.shape != y.shape:
            r.violation(key, 'filter %s has shape %s instead of %s' % (p, y.shape, x.shape), dict(kind=kind, cfg=cfg, backend=backend))
            return
        if not np.allclose(x, y, rtol=0, atol=4e-7 * max(1e-30, float(np.abs(x).max()))):
            r.violation(key, 'filter %s differs by %g' % (p, np.abs(x - y).max()), dict(kind=kind, cfg=cfg, backend=backend))
            return
        n += x.size
    for k in ATTRS:
        try:
            u = plain(getattr(S0, k))
        except Exception:
            continue
        try:
            w = plain(getattr(S, k))
        except Exception as e:
            w = repr(e)
        if not equal_plain(u, w):
            r.violation(key, 'attribute %s is %s instead of %s' % (k, w, u), dict(kind=kind, cfg=cfg, backend=backend))
            return
        n += 1
    if kind in ('1d', 'jtfs'):
        m0, m = S0.meta(), S.meta()
        for k in m0:
            if k not in m or not equal_plain(plain_list(m0[k]), plain_list(m[k])):
                r.violation(key, 'meta()[%r] differs' % k, dict(kind=kind, cfg=cfg, backend=backend))
                return
            n += 1
        if kind == '1d' and S0.output_size(True) != S.output_size(True):
            r.violation(key, 'output_size differs', dict(kind=kind, cfg=cfg, backend=backend))
            return
    bad = evaluated(S0, S, kind, backend, cfg)
    if bad:
        r.violation(key, bad, dict(kind=kind, cfg=cfg, backend=backend))
        return
    r.ok(key, n)
    r.bound('filters %s %s' % (kind, nm(cfg)))


def evaluated(S0, S, kind, backend, cfg):
    """the filters evaluation really uses are the built ones: generic signals, default precision"""
    d = D.get(backend)
    rs = np.random.RandomState(3)
    for k in range(2):
        x = rs.randn(*prepad_shape(kind, cfg))
        a = lists(S0(x))
        f = {}

        def prog(v):
            f['rows'] = lists(S(v))
            return [c for _, c in f['rows']]
        if backend == 'torch':
            import torch
            b = [host(c) for c in prog(torch.from_numpy(x.astype(np.float32)))]
        else:
            b = d.conc(prog, [x], False)[1]
        if len(a) != len(b):
            return 'evaluation gives %d instead of %d coefficients' % (len(b), len(a))
        top = max(float(np.abs(v).max()) for _, v in a if v.size)
        for (l, u), w in zip(a, b):
            w = np.asarray(w).real
            if u.shape != w.shape or not np.allclose(u, w, rtol=2e-3, atol=2e-5 * top):
                return 'evaluation with the built filters: coefficient %s differs by %g' % (l, np.abs(u - w).max() if u.shape == w.shape else -1)
    return None


def plain_list(v):
    return v.tolist() if isinstance(v, np.ndarray) else list(v)


def equal_plain(u, w):
    if isinstance(u, float) and isinstance(w, float):
        return u == w or (u != u and w != w)
    if isinstance(u, (list, tuple)) and isinstance(w, (list, tuple)):
        return len(u) == len(w) and all(equal_plain(p, q) for p, q in zip(u, w))
    return u == w


FB = [('1d', dict(J=3, shape=32, Q=2)), ('1d', dict(J=4, shape=41, Q=(4, 1), T=9, stride=2)), ('1d', dict(J=3, shape=24, Q=1, T=0, out_type='list')),
      ('2d', dict(J=2, shape=(12, 9), L=3)), ('2d', dict(J=3, shape=(16, 16), L=2, pre_pad=True)),
      ('3d', dict(J=1, shape=(4, 6, 5), L=2, sigma_0=1, integral_powers=(1., 2.))), ('3d', dict(J=2, shape=(3, 3, 4), L=1, rotation_covariant=False, integral_powers=(1., 2.))),
      ('jtfs', dict(J=3, shape=32, Q=2, J_fr=2)), ('jtfs', dict(J=3, shape=40, Q=(3, 1), J_fr=3, Q_fr=2, T=6, F=3, format='joint'))]
MOREFB = [('1d', dict(J=7, shape=500, Q=(8, 2))), ('1d', dict(J=5, shape=100, Q=6, T='global')), ('2d', dict(J=4, shape=(33, 20), L=8)),
          ('2d', dict(J=1, shape=(7, 30), L=6)), ('3d', dict(J=3, shape=(9, 8, 7), L=3, integral_powers=(1., 2.))), ('jtfs', dict(J=6, shape=256, Q=(8, 1), J_fr=4, Q_fr=2))]


def jobs(tier):
    q = tier == 'quick'
    out = []
    for b in ('torch', 'tensorflow', 'jax'):
        for i, (kind, cfg) in enumerate(QUICK + MORE):
            if q and i >= len(QUICK) and b != 'torch' and i % 2:
                continue
            out.append(job('checks.c25', 'pair', 12, b, kind=kind, backend=b, cfg=cfg, limit=1500, batch=((), (2,))[i % 2]))
        for kind, cfg in FB + ([] if q else MOREFB):
            out.append(job('checks.c25', 'filters', 5, b, kind=kind, backend=b, cfg=cfg))
    return out
