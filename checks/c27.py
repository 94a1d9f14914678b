"""C27: the state of PyTorch transforms.  The real module is evaluated with symbolic values for every tensor of its state
(torch.func.functional_call inside the traced program) and must equal the documented cascade with exactly these filters;
loading, copying and converting the state are relations between runs of the real code."""
import copy
from .fam import *
from .c26 import leaves, specification
ASSUMPTIONS = ASSUME + ['the state entry of a filter level is identified by tensor identity at construction (or by its values there)']


def slots3d(S):
    """names of the state entries holding the filters of each degree"""
    bufs = dict(S.named_buffers())
    out = []
    for f in S.filters:
        nm_ = [n for n, b in bufs.items() if b is f or (b.shape == f.shape and bool((b == f).all()))]
        out.append(nm_[0] if nm_ else None)
    return out


def names(kind, S):
    """(names of the entries in filter order, flat shapes, complex?)"""
    if kind == '3d':
        bufs = dict(S.named_buffers())
        ns = slots3d(S)
        return ns, [tuple(bufs[n].shape[:-1]) for n in ns if n], True
    F = Filters(S, 'torch', banks2d(S) if kind == '2d' else banks1d(S))
    return list(F.bufs), [F.shape(i) for i in range(len(F.slots))], False


def levels(kind, S):
    """expected number of filter tensors"""
    if kind == '3d':
        return len(S.filters)
    return sum(len(f['levels']) for f in (banks2d(S) if kind == '2d' else banks1d(S)))


def state(r, kind, cfg, after):
    """evaluation uses exactly the current state.  after: evaluate once with the old filters first"""
    import torch
    key = 'state %s %s%s' % (kind, nm(cfg), ' after an evaluation' if after else '')
    r.bound('%s %s, all filter values symbolic' % (kind, nm(cfg)))
    S = MAKE[kind]('torch', **cfg).double()
    ref = MAKE[kind]('numpy', **cfg)
    try:
        ns, shapes, cplx = names(kind, S)
    except RuntimeError as e:
        ns = [None]
    if None in ns or len(set(ns)) != levels(kind, ref) or not set(ns) <= set(S.state_dict()):
        r.violation(key, 'the state %s does not hold each of the %d filter levels under its own name' % (sorted(S.state_dict())[:20], levels(kind, ref)),
                    dict(kind=kind, cfg=cfg))
        return
    bsh = {k: tuple(v.shape) for k, v in S.state_dict().items()}
    sig = prepad_shape(kind, cfg)
    if kind == '3d':
        sig = (1,) + sig
    x0 = torch.from_numpy(generic(sig, 77)) if after else None

    def impl(x, *f):
        st = {n: (torch.view_as_real(v) if cplx else v).reshape(bsh[n]) for n, v in zip(ns, f)}
        if after:
            S(x0)
        return leaves(torch.func.functional_call(S, st, (x,)))

    def spec(x, *f):
        if kind == '3d':
            return [scat3d(x, cfg, f)]
        c = specification(kind, ref, cfg, list(f))
        return c(x)
    ins = [In('x', sig)] + [In('f%d' % i, s, cplx) for i, s in enumerate(shapes)]
    check_equal(r, key, impl, spec, ins, 'torch', kym=False, tol=tol(kind, 'torch'))


def loaded(r, kind, cfg):
    """load_state_dict into another transform of the same configuration, deepcopy, and conversion of the module"""
    import torch
    key = 'loading %s %s' % (kind, nm(cfg))
    A = MAKE[kind]('torch', **cfg).double()
    ns, shapes, cplx = names(kind, A)
    with torch.no_grad():
        for i, n in enumerate(ns):
            b = dict(A.named_buffers())[n]
            v = generic(tuple(b.shape), 900 + i, False, den=16)
            b.copy_(torch.from_numpy(v))
    B = MAKE[kind]('torch', **cfg).double()
    sig = prepad_shape(kind, cfg)
    if kind == '3d':
        sig = (1,) + sig
    x0 = torch.from_numpy(generic(sig, 77))
    B(x0)                                   # a history: B has been evaluated with its own filters
    miss = B.load_state_dict(A.state_dict())
    if miss.missing_keys or miss.unexpected_keys:
        r.violation(key, 'states are not interchangeable: %s' % (miss,), dict(kind=kind, cfg=cfg))
        return
    Cp = copy.deepcopy(A)
    with torch.no_grad():
        for b in A.buffers():
            b.mul_(1)                       # in-place edits of A may not reach the copy
    H = MAKE[kind]('torch', **cfg)
    H(x0.float())
    H.load_state_dict({k: v.float() for k, v in A.state_dict().items()})
    H.double()                              # conversion after evaluation

    def prog(x):
        return [norm(kind, S(x)) for S in (A, B, Cp, H)]

    def rel(o, x):
        rows = []
        for who, p in zip(('loaded', 'deep copy', 'loaded, then converted'), o[1:]):
            rows.append(('%s: number of coefficients' % who, len(p), len(o[0])))
            for (l, a), (m, b) in zip(o[0], p):
                rows += [('%s: label' % who, m, l), ('%s: %s' % (who, l), b, a)]
        return rows
    check_rel(r, key, prog, rel, [In('x', sig)], 'torch', info=dict(kind=kind, cfg=cfg))


CF = [('1d', dict(J=2, shape=8, Q=1)), ('1d', dict(J=3, shape=11, Q=2, stride=2, out_type='list')), ('1d', dict(J=2, shape=7, Q=1, T=0, out_type='dict')),
      ('2d', dict(J=1, shape=(3, 4), L=2)), ('2d', dict(J=2, shape=(4, 5), L=1, out_type='list')), ('2d', dict(J=2, shape=(4, 4), L=1, pre_pad=True)),
      ('3d', dict(J=1, shape=(2, 3, 2), L=1)), ('3d', dict(J=1, shape=(2, 2, 2), L=2, rotation_covariant=False)),
      ('jtfs', dict(J=2, shape=8, Q=1, J_fr=1)), ('jtfs', dict(J=2, shape=7, Q=1, J_fr=1, T=0, F=0, out_type='dict'))]
CF2 = [('1d', dict(J=4, shape=20, Q=(2, 2), T=9)), ('1d', dict(J=3, shape=16, Q=1, T='global')), ('2d', dict(J=2, shape=(8, 6), L=2)),
       ('2d', dict(J=3, shape=(8, 9), L=1)), ('3d', dict(J=2, shape=(2, 2, 3), L=2)), ('3d', dict(J=0, shape=(3, 3, 2), L=3)),
       ('jtfs', dict(J=3, shape=11, Q=1, J_fr=2, stride=2, F=2, format='joint')), ('jtfs', dict(J=2, shape=8, Q=2, J_fr=1, format='joint', out_type='list'))]


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = []
    for i, (kind, cfg) in enumerate(CF + ([] if q else CF2)):
        for after in (False, True):
            out.append(job('checks.c27', 'state', 15, kind=kind, cfg=cfg, after=after, limit=1500))
        out.append(job('checks.c27', 'loaded', 10, kind=kind, cfg=cfg, limit=1500))
    return out
