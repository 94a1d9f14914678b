"""C28: Keras layers.  The real layer and the real TensorFlow frontend built with the same arguments are both traced by
TensorFlow; the two graphs are run on the same symbolic signal and every output must coincide for all signals.  The same
for a layer rebuilt from its configuration and for a functional model with an unknown batch size; the declared output
shape must be the produced one."""
from .fam import *
from .free import *
from vk.core import PublicFailure

ASSUMPTIONS = ASSUME + ['filters are generic values installed in both; the filters the layer builds are compared separately']


def tfargs(kind, cfg, shp):
    a = dict(cfg)
    if kind == '2d' and a.get('pre_pad'):
        shp = tuple(m - 2 * 2 ** a['J'] for m in shp)
    a['shape'] = shp
    return a


def leaves(o, path=()):
    if isinstance(o, dict):
        for k in sorted(o, key=str):
            yield from leaves(o[k], path + (k,))
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    else:
        yield path, o


def bank(kind, S):
    return dict(leaves(dict(phi=S.phi, psi=S.psi) if kind == '2d' else dict(phi=S.phi_f, psi1=S.psi1_f, psi2=S.psi2_f)))


def same_filters(r, key, kind, a, b, info):
    a, b = bank(kind, a), bank(kind, b)
    if set(a) != set(b):
        return r.violation(key, 'the layer builds other filters: %s' % sorted(map(str, set(a) ^ set(b)))[:4], info)
    for p in a:
        if not np.array_equal(np.asarray(a[p]), np.asarray(b[p])):
            return r.violation(key, 'filter entry %s differs' % (p,), info)
    r.ok(key, len(a))


def layer(r, kind, cfg, shp, batches):
    shim.load('kymatio.keras', 'kymatio.tensorflow')
    import tensorflow as tf
    K = shim.load('kymatio.keras')
    cl = K.Scattering1D if kind == '1d' else K.Scattering2D
    info = dict(kind=kind, cfg=cfg, shape=shp)
    name = 'keras %s %s shape=%s' % (kind, nm(cfg), 'x'.join(map(str, shp)))
    zero = tf.zeros((1,) + tuple(shp))

    def made(f, what):
        try:
            return f()
        except Exception as e:
            raise PublicFailure('%s: %s' % (name, what), '%s: %s' % (type(e).__name__, str(e)[:300]), info)
    S = make(kind, 'tensorflow', **tfargs(kind, cfg, shp))

    def build(how):
        L = made(how, 'can be constructed')
        made(lambda: L(zero), 'can be called')
        return L
    L = build(lambda: cl(**cfg))
    # L2: rebuilt from the configuration of an unbuilt layer; L3: of a built one
    cfg1 = made(lambda: cl(**cfg).get_config(), 'get_config')
    L2 = build(lambda: cl.from_config(cfg1))
    L3 = build(lambda: cl.from_config(L.get_config()))
    for what, M in (('layer', L), ('layer from its configuration', L2), ('layer from its configuration after use', L3)):
        same_filters(r, '%s: %s has the filters of the frontend' % (name, what), kind, M.S,
                     MAKE[kind]('tensorflow', **tfargs(kind, cfg, shp)), info)
        install(kind, M.S, 'tensorflow')
    r.bound('%s batches %s' % (name, batches))
    for batch in batches:
        ish = tuple(batch) + tuple(shp)
        progs = [('layer', L), ('layer from its configuration', L2), ('layer from its configuration after use', L3)]
        Lb = cl(**cfg)                  # built by this very batch
        made(lambda: Lb(tf.zeros(ish)), 'accepts a first batch of shape %s' % (batch,))
        install(kind, Lb.S, 'tensorflow')
        progs.append(('layer built by this batch', Lb))
        if batch:                       # a functional model: unknown batch size
            Lm = cl(**cfg)
            inp = tf.keras.layers.Input(shape=ish[1:])
            model = made(lambda: tf.keras.Model(inp, Lm(inp)), 'can be part of a functional model')
            install(kind, Lm.S, 'tensorflow')
            progs.append(('functional model', model))
        for what, M in progs:
            key = '%s batch %s: %s = TensorFlow frontend' % (name, batch, what)
            check_rel(r, key, lambda x: [M(x), S(x)], lambda o, x: [('output', o[0], o[1])],
                      [In('x', ish)], 'tensorflow', info=dict(info, batch=batch, what=what))
        out = made(lambda: L(tf.zeros(ish)), 'accepts a batch of shape %s' % (batch,)).shape.as_list()
        for what, M, i in [('layer', L, ish), ('rebuilt layer', L2, ish), ('layer, given a TensorShape', L, tf.TensorShape(ish))] + (
                [('layer, unknown batch', L, (None,) + ish[1:])] if batch else []):
            key = '%s: output shape of %s for batch %s' % (name, what, batch)
            dec = list(made(lambda: tf.TensorShape(M.compute_output_shape(i)), 'compute_output_shape').as_list())
            if isinstance(i, tuple) and i[0] is None:
                good = dec[0] is None and dec[1:] == out[1:] and len(dec) == len(out)
            else:
                good = dec == out
            if good:
                r.ok(key)
            else:
                r.violation(key, 'declared %s, produced %s' % (dec, out), dict(info, batch=batch))




def config(r, kind, how):
    """every constructor argument is in the configuration and survives rebuilding, whatever its value"""
    shim.load('kymatio.keras', ints=True)
    key = 'keras %s configuration of an unbuilt layer, %s' % (kind, how)
    r.bound(key + ': every integer, real, flag and text value of every argument')
    K = shim.load('kymatio.keras', ints=True)

    def args(v):
        if kind == '2d':
            return dict(J=v['J'], L=v['L'], max_order=v['m'], pre_pad=v['p'])
        T = {'integer': v.get('t'), 'real': v.get('u'), 'text': v.get('s'), 'default': None}[how]
        Q = (v['q'], v['q2']) if how == 'real' else v['q']
        return dict(J=v['J'], Q=Q, T=T, max_order=v['m'], oversampling=v['o'])

    def same(a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))) or len(a) != len(b):
                return [False]
            return [c for x, y in zip(a, b) for c in same(x, y)]
        if a is None or b is None:
            return [a is b]
        if isinstance(b, SBool):
            return [(a & b) | (~a & ~b) if isinstance(a, SBool) else b if a else ~b]
        return [a == b]

    def body(v):
        cl = K.Scattering1D if kind == '1d' else K.Scattering2D
        a = args(v)
        L = cl(**a)
        c = L.get_config()
        cs = []
        for what, d in (('configuration', c), ('configuration of the rebuilt layer', cl.from_config(c).get_config())):
            for k in a:
                cs.append(('%s has %s' % (what, k), k in d))
                if k in d:
                    cs += [('%s: value of %s' % (what, k), q) for q in same(d[k], a[k])]
        return cs
    vars = dict(J=Int(), m=Int())
    smp = dict(J=3, m=1)
    if kind == '2d':
        vars.update(L=Int(), p=Bool())
        smp.update(L=4, p=True)
    else:
        vars.update(q=Int(), o=Int(), **{'integer': dict(t=Int()), 'real': dict(u=Real(), q2=Int()), 'text': dict(s=Str(7)), 'default': {}}[how])
        smp.update(q=2, o=1, t=0, u=2.5, q2=1, s='global')
    explore_free(r, key, body, vars, samples=[smp], ints=True)


Q = [('1d', dict(J=2), (8,), [(), (2,)]), ('1d', dict(J=2, Q=2, max_order=1), (9,), [(2,)]),
     ('1d', dict(J=3, T=4), (11,), [(2,)]), ('1d', dict(J=3, T=5, oversampling=1), (10,), [(1,)]),
     ('1d', dict(J=2, T='global'), (7,), [(2,)]), ('1d', dict(J=3, Q=(2, 1), oversampling=2), (8,), [(2, 1)]),
     ('2d', dict(J=1, L=2), (4, 5), [(), (2,)]), ('2d', dict(J=2, L=2), (8, 7), [(2, 3)]),
     ('2d', dict(J=2, L=1, max_order=1), (5, 9), [(2,)]), ('2d', dict(J=1, L=3, pre_pad=True), (6, 8), [(2,)]),
     ('2d', dict(J=2, L=1, pre_pad=True), (12, 16), [(1,)])]
T = [('1d', dict(J=4, Q=(2, 2)), (16,), [(2,)]), ('1d', dict(J=3, Q=3, T=2), (13,), [(2,)]),
     ('1d', dict(J=3, T=9), (15,), [(1,)]), ('1d', dict(J=4, Q=2, T='global', max_order=1), (17,), [(2,)]),
     ('1d', dict(J=4, T=8, oversampling=3), (16,), [(1, 2)]), ('1d', dict(J=1, oversampling=1), (5,), [(2,)]),
     ('2d', dict(J=3, L=1), (8, 9), [(1,)]), ('2d', dict(J=2, L=3), (6, 4), [(2, 1)]),
     ('2d', dict(J=1, L=8), (3, 2), [(1,)]), ('2d', dict(J=3, L=1, max_order=1, pre_pad=True), (24, 24), [(1,)])]


def jobs(tier):
    cases = Q + T
    return [job('checks.c28', 'config', cost=5, kind=k, how=h) for k, h in (('1d', 'integer'), ('1d', 'real'), ('1d', 'text'),
                                                                            ('1d', 'default'), ('2d', 'default'))] + [
            job('checks.c28', 'layer', cost=12, tag='keras %s %s' % (k, nm(c)), limit=600, kind=k, cfg=c, shp=s, batches=b)
            for k, c, s, b in cases]
