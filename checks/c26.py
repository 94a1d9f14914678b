"""C26: gradients of the PyTorch code.  autograd of the real code is traced (aten graph of forward and backward, the
custom backward of the modulus included) and must equal, for all signals and all cotangents, the derivative obtained by
differentiating the specification; divisions by zero are undefined values that may not reach the result."""
import time
from .fam import *
from vk.equal import make_sym, values, evaluate, close, _ser, ImplError

ASSUMPTIONS = ASSUME + ['derivatives of the whole transform are compared where no modulus vanishes, and at constant and zero '
                        'signals (all wavelet responses vanish), where each vanishing modulus contributes zero']


# ---- differentiation of the specification -------------------------------
def dual(z, at, memo):
    """value and gradient (dict index -> Z) of z with the variables replaced: at[atom] = (value, index or None)"""
    val, g = lift(0), {}
    for (m, e), c in z.t.items():
        vals = [datom(i, at, memo) for i in m]
        base = lift(c).rot(e) if e else lift(c)
        p = base
        for v, _ in vals:
            p = p * v
        val = val + p
        for k, (_, gk) in enumerate(vals):
            if not gk:
                continue
            q = base
            for l, (v, _) in enumerate(vals):
                if l != k:
                    q = q * v
            if q.is_zero():
                continue
            for i, d in gk.items():
                g[i] = g[i] + q * d if i in g else q * d
    if z.d != 1:
        val = val.scale(poly.Fraction(1, z.d))
        g = {i: d.scale(poly.Fraction(1, z.d)) for i, d in g.items()}
    return val, g


def datom(i, at, memo):
    if i in memo:
        return memo[i]
    a = C.atoms[i]
    if a.kind == 'var':
        if i in at:
            v, idx = at[i]
            r = v, ({idx: lift(1)} if idx is not None else {})
        else:
            r = poly.Z({((i,), 0): 1}), {}
    elif a.kind == 'sqrt':
        v, g = dual(a.args[0], at, memo)
        s = v.sqrt()
        if s.is_zero():
            r = s, {}
        else:
            h = poly.inv(s).scale(poly.Fraction(1, 2))
            r = s, {k: h * d for k, d in g.items()}
    elif a.kind == 'abs':
        raise Unsupported('derivative of abs')
    elif a.kind == 'mul':
        v, g = dual(a.args[0], at, memo)
        w, h = dual(a.args[1], at, memo)
        out = {k: d * w for k, d in g.items()}
        for k, d in h.items():
            out[k] = out[k] + v * d if k in out else v * d
        r = v * w, out
    else:
        raise Unsupported('derivative of ' + a.kind)
    memo[i] = r
    return r


# ---- conditions decided where no modulus vanishes -----------------------
def resolve(z, memo, cache):
    """replace if-then-else atoms whose condition is settled by: every square root in it is positive"""
    if not any(kinds(i, cache) for (m, e) in z.t for i in m):
        return z
    out = lift(0)
    for (m, e), c in z.t.items():
        p = lift(c).rot(e) if e else lift(c)
        for i in m:
            p = p * ratom(i, memo, cache)
        out = out + p
    return out.scale(poly.Fraction(1, z.d)) if z.d != 1 else out


def kinds(i, cache):
    if i in cache:
        return cache[i]
    a = C.atoms[i]
    cache[i] = False
    r = a.kind == 'ite' or any(kinds(j, cache) for x in a.args if isinstance(x, poly.Z) for (m, e) in x.t for j in m)
    cache[i] = r
    return r


def ratom(i, memo, cache):
    if i in memo:
        return memo[i]
    a = C.atoms[i]
    if not kinds(i, cache):
        r = poly.Z({((i,), 0): 1})
    elif a.kind == 'ite':
        c, x, y = a.args
        t = settled(c)
        if t is None:
            raise Unsupported('condition %s is not settled by positive moduli' % (c,))
        r = resolve(x if t else y, memo, cache)
    elif a.kind == 'inv':
        r = 1 / resolve(a.args[0], memo, cache)
    elif a.kind == 'sqrt':
        r = resolve(a.args[0], memo, cache).sqrt()
    elif a.kind == 'mul':
        r = resolve(a.args[0], memo, cache) * resolve(a.args[1], memo, cache)
    else:
        raise Unsupported('condition inside ' + a.kind)
    memo[i] = r
    return r


def settled(c):
    """truth of a condition when every square-root atom occurring is positive (None: not determined)"""
    if isinstance(c, (bool, np.bool_)):
        return bool(c)
    import z3
    from vk.engine import Zx, check
    for want in (False, True):
        zx = Zx(axioms=False)
        e = c.z3(zx)
        sv = z3.Solver()
        sv.set('timeout', 5000)
        sv.add(*[v > 0 for k, v in zx.vars.items() if C.atoms[k].kind == 'sqrt'])
        sv.add(e if not want else z3.Not(e))
        if check(sv) == z3.unsat:
            return want
    return None


# ---- the modulus itself --------------------------------------------------
def modulus(r, shape, zero, public):
    """zero: indices of the elements that are exactly zero; all the others are arbitrary"""
    import torch
    m = shim.load('kymatio.backend.torch_backend')
    mask = np.ones(shape)
    for i in zero:
        mask[i] = 0.
    key = 'modulus gradient %s, shape %s, zero at %s' % ('backend.modulus' if public else 'ModulusStable', shape, zero)
    r.bound('modulus of shape %s' % (shape,))
    tm = torch.from_numpy(np.stack([mask, mask], -1))

    def prog(a, b, g):
        x = (torch.stack([a, b], -1) * tm).detach().requires_grad_(True)
        if public:
            y = m.TorchBackend.modulus(x)
            y, gg = y, g[..., None]
        else:
            y, gg = m.ModulusStable.apply(x), g
        gx, = torch.autograd.grad(y, x, gg)
        return [y.reshape(shape), gx[..., 0], gx[..., 1]]

    def spec(a, b, g):
        if is_sym(a):
            out = [np.empty(shape, dtype=object) for _ in range(3)]
            for i in np.ndindex(*shape):
                x, y, w = lift(obj(a)[i]) * int(mask[i]), lift(obj(b)[i]) * int(mask[i]), lift(obj(g)[i])
                s = (x * x + y * y).sqrt()
                out[0][i] = s
                if mask[i]:
                    out[1][i] = poly.ite(s == 0, lift(0), w * x / s)
                    out[2][i] = poly.ite(s == 0, lift(0), w * y / s)
                else:
                    out[1][i] = out[2][i] = lift(0)
            return [SymArray(o) for o in out]
        a, b = a * mask, b * mask
        s = np.sqrt(a * a + b * b)
        with np.errstate(all='ignore'):
            return [s, np.where(s == 0, 0, g * a / s), np.where(s == 0, 0, g * b / s)]
    poly_undef(lambda: check_equal(r, key, prog, spec, [In(k, shape) for k in 'abg'], 'torch', kym=False))


def poly_undef(f):
    """0/0 is an undefined value instead of an error of the encoding"""
    old = poly.reset

    def reset(*a, **k):
        old(*a, **k)
        C.undef = 1
    poly.reset = reset
    try:
        return f()
    finally:
        poly.reset = old


# ---- whole transforms ----------------------------------------------------
def leaves(o):
    if isinstance(o, dict):
        return [o[k] for k in sorted(o, key=lambda k: (len(k), k))]
    if isinstance(o, (list, tuple)):
        return [p['coef'] for p in o]
    return [o]


def specification(kind, S, cfg, vals):
    ot = cfg.get('out_type', 'array')
    if kind == '1d':
        c = Cfg1D(S, cfg)
        return lambda x: leaves(out1d(scat1d(x, c, vals), ot))
    if kind == '2d':
        c = Cfg2D(S, cfg)
        return lambda x: leaves(out2d(scat2d(x, c, vals), ot))
    if kind == 'jtfs':
        c = CfgJ(S, cfg)
        return lambda x: leaves(outj(jtfs(x, c, vals), c))
    return lambda x: [scat3d(x, cfg, vals)]


def filters_at(kind, S, point):
    """generic filters; wavelets with zero response at frequency zero unless the point is generic"""
    if kind == '3d':
        sh = [tuple(f.shape) for f in filters3d(S)]
        vals = [generic(s[:-1] if len(s) == 6 or s[-1] == 2 and len(s) == 5 and False else s, 300 + k, True, den=16) for k, s in enumerate(sh)]
        if point != 'generic':
            for v in vals:
                v[..., 0, 0, 0] = 0
        put3d(S, 'torch', vals)
        return vals
    low = [S.phi if kind == '2d' else S.phi_f] + ([S.filters_fr[0]] if kind == 'jtfs' else [])
    F = Filters(S, 'torch', banks2d(S) if kind == '2d' else banks1d(S))
    vals = F.randomise(5)
    if point != 'generic':
        for (lst, l), v in zip(F.slots, vals):
            if not any(lst is f['levels'] for f in low):
                v[(0,) * v.ndim] = 0
        F.put(vals)
    return vals


def whole(r, kind, cfg, n, point='generic', batch=()):
    import torch
    key = 'gradient of %s %s at %s signals' % (kind, nm(cfg), point)
    r.bound('%s %s, batch %s, %s' % (kind, nm(cfg), batch, point))
    info = dict(job=r.job, key=key, cfg=cfg, kind=kind)
    S = MAKE[kind]('torch', **cfg)
    vals = filters_at(kind, S, point)
    spec = specification(kind, S, cfg, vals)
    sig = tuple(batch) + prepad_shape(kind, cfg)
    d = D.get('torch')

    def at_point(c, x):
        if point == 'generic':
            return x
        if point == 'constant':
            return c.reshape((1,) * len(sig)).expand(sig)
        return x * 0

    def prog(c, x, *g):
        v = at_point(c, x).detach().clone().requires_grad_(True)
        tot = None
        for o, w in zip(leaves(S(v)), g):
            t = (o * w).sum()
            tot = t if tot is None else tot + t
        gx, = torch.autograd.grad(tot, v)
        return gx
    with torch.no_grad():
        shapes = [tuple(o.shape) for o in leaves(S(torch.zeros(sig, dtype=torch.float64)))]
    ins = [In('c', (1,)), In('x', sig)] + [In('g%d' % i, s) for i, s in enumerate(shapes)]
    poly.reset(n, 'exact')
    C.undef, C.expand = 1, True
    syms = make_sym(ins, d)
    vv, env = values(ins, d, 1000 + r.seed)

    def numeric(v):
        """the real gradient and central differences of the real transform"""
        c, x, *g = [torch.from_numpy(np.array(t, dtype=float)) for t in v]
        gx = prog(c, x, *g).detach().numpy()
        base = at_point(c, x).detach().clone().contiguous()
        num = np.zeros(sig)
        for i in np.ndindex(*sig):
            for s in (1e-6, -1e-6):
                p = base.clone()
                p[i] += s
                with torch.no_grad():
                    num[i] += sum(float((a * w).sum()) for a, w in zip(leaves(S(p)), g)) / (2 * s)
        return gx, num

    def confirm(what):
        for seed in (11, 12, 13):
            v, _ = values(ins, d, seed)
            try:
                gx, num = numeric(v)
            except Exception as e:
                r.violation(key, '%s; the real code raises %s: %s' % (what, type(e).__name__, str(e)[:200]), dict(info, values=_ser(v)))
                return True
            if not np.all(np.isfinite(gx)):
                r.violation(key, '%s; the real gradient is not finite: %s' % (what, gx.ravel()[:4]), dict(info, values=_ser(v)))
                return True
            # the kinks of vanishing moduli cancel in central differences
            if not np.allclose(gx, num, rtol=1e-4, atol=1e-4 * max(1., float(np.abs(num).max()))):
                i = np.unravel_index(np.argmax(np.abs(gx - num)), sig)
                r.violation(key, '%s; gradient %g instead of %g at %s' % (what, gx[i], num[i], tuple(map(int, i))),
                            dict(info, values=_ser(v)))
                return True
        return False
    try:
        with r.encoding():
            sk, lv = d.sym(prog, [s.copy() for s in syms], False)
        rm, rc = {}, {}
        got = [resolve(lift(z), rm, rc) for z in obj(lv[0]).reshape(-1)]
    except (ImplError, Unsupported) as e:
        if not confirm(str(e)):
            r.inconclusive(key, str(e))
        return
    ys = spec(syms[1])
    if [tuple(y.shape) for y in ys] != [tuple(s) for s in shapes]:
        r.inconclusive(key, 'output shapes differ from the specification')
        return
    cc, x = lift(obj(syms[0])[0]), obj(syms[1])
    at = {}
    for k, i in enumerate(np.ndindex(*sig)):
        (m, e), = lift(x[i]).t
        at[m[0]] = (lift(x[i]) if point == 'generic' else (cc if point == 'constant' else lift(0)), k)
    want = [lift(0)] * int(np.prod(sig))
    memo = {}
    for y, g in zip(ys, syms[2:]):
        for z, w in zip(obj(y).reshape(-1), obj(g).reshape(-1)):
            for k, v in dual(lift(z), at, memo)[1].items():
                want[k] = want[k] + v * lift(w)
    gx, num = numeric(vv)
    ev = evaluate([np.array(got, dtype=object)], env)[0]
    if not (np.all(np.isfinite(gx)) and close(gx.reshape(-1), ev.real, 1e-6)):
        if not confirm('the encoding and the real gradient differ'):
            r.inconclusive(key, 'the encoding does not reproduce the real gradient')
        return
    r.validated += 1
    st, extra = prove.prove_equal(np.array(got, dtype=object), np.array(want, dtype=object))
    if st == 'proved':
        r.ok(key, len(want))
        r.sample(dict(obligation=key, signal=list(sig), terms=sum(len(z.t) for z in got)))
    elif not confirm('solver: gradient element %s' % (extra and extra[0])):
        r.inconclusive(key, st)


ALL = ('generic', 'constant', 'zero')
WHOLE = [('1d', dict(J=2, shape=4, Q=1), 8, ALL, ()), ('1d', dict(J=2, shape=5, Q=1), 16, ('generic',), ()),
         ('1d', dict(J=1, shape=3, Q=1, max_order=1), 8, ALL, (2,)),
         ('1d', dict(J=2, shape=4, Q=1, T=0, out_type='dict'), 8, ALL, ()),
         ('1d', dict(J=2, shape=4, Q=1, T='global', out_type='list'), 8, ALL, ()),
         ('1d', dict(J=2, shape=4, Q=2, stride=2), 8, ('generic',), ()),
         ('2d', dict(J=1, shape=(2, 2), L=2), 12, ALL, (2,)), ('2d', dict(J=2, shape=(4, 4), L=1), 12, ('constant', 'zero'), ()),
         ('3d', dict(J=0, shape=(2, 2, 1), L=1, integral_powers=(1., 2.)), 4, ALL, ()),
         ('3d', dict(J=1, shape=(2, 2, 1), L=1), 4, ALL, ()),
         ('3d', dict(J=1, shape=(2, 1, 2), L=1, integral_powers=(1.,), rotation_covariant=False), 4, ALL, (2,)),
         ('jtfs', dict(J=2, shape=4, Q=1, J_fr=1, F=1), 24, ('constant', 'zero'), ())]
WHOLE2 = [('1d', dict(J=2, shape=7, Q=1), 16, ALL, ()), ('1d', dict(J=2, shape=7, Q=1, T=3), 16, ('generic',), ()),
          ('1d', dict(J=2, shape=6, Q=2, stride=2, out_type='list'), 16, ('generic',), ()),
          ('1d', dict(J=3, shape=8, Q=1, max_order=1), 16, ('generic', 'constant'), (2,)),
          ('2d', dict(J=2, shape=(4, 4), L=1), 12, ('generic',), ()), ('2d', dict(J=1, shape=(3, 2), L=1, out_type='list'), 12, ALL, ()),
          ('3d', dict(J=1, shape=(2, 2, 2), L=1), 4, ALL, ()), ('3d', dict(J=1, shape=(3, 1, 2), L=2), 12, ALL, ()),
          ('jtfs', dict(J=2, shape=4, Q=1, J_fr=1, F=1, format='joint'), 24, ('constant', 'zero'), ())]


def jobs(tier):
    q = tier == 'quick'
    out = []
    for pub in (False, True):
        for shape, zs in (((1,), [(), ((0,),)]), ((3,), [(), ((1,),), ((0,), (2,)), ((0,), (1,), (2,))]),
                          ((2, 1, 2), [(), ((0, 0, 0),), ((1, 0, 0), (1, 0, 1))])):
            for z in zs:
                out.append(job('checks.c26', 'modulus', 2, shape=shape, zero=z, public=pub))
    for kind, cfg, n, pts, batch in WHOLE + ([] if q else WHOLE2):
        for pt in pts:
            out.append(job('checks.c26', 'whole', 20, kind=kind, cfg=cfg, n=n, point=pt, batch=batch, limit=300 if q else 3000))
    return out
