from .fam import *
ASSUMPTIONS = ASSUME + [
    'filter values are independent generic values per filter and resolution, symbolic in the purity part for NumPy',
    'histories: one evaluation order that contains every ordered pair of operations, the transform being re-evaluated after each']


def meta(S, size=False):
    with shim.concrete():
        if size:
            S.output_size()
        else:
            S.meta()


def operations(kind, S, cfg, B):
    """name -> function(x, y) performing one operation on the transform; the state is restored by the operation itself"""
    ops = {'other input': lambda x, y: S(y), 'single signal': lambda x, y: S(y[0]) if kind != '3d' else S(y[:1])}
    if kind in ('1d', 'jtfs'):
        ops['metadata'] = lambda x, y: meta(S)
        ops['size'] = lambda x, y: meta(S, True)
    fmts = {'1d': ['list', 'dict'] + (['array'] if cfg.get('T') != 0 else []), '2d': ['list', 'array'], '3d': [],
            'jtfs': ['list', 'dict'] + (['array'] if cfg.get('T') != 0 and cfg.get('F') != 0 else [])}[kind]

    def switch(t, key='out_type'):
        def f(x, y):
            old = getattr(S, key)
            setattr(S, key, t)
            S(x)
            if kind in ('1d', 'jtfs'):
                meta(S)
            setattr(S, key, old)
        return f
    for t in fmts:
        ops['as ' + t] = switch(t)
    if hasattr(S, 'state_dict'):
        import torch
        z = torch.from_numpy(generic((1,) + prepad_shape(kind, cfg), 41))

        def convert(x, y):
            # the filter values are dyadic: single precision holds them
            with shim.concrete():
                S.float()
                S(z.float())
                S.double()

        def reload(x, y):
            with shim.concrete(), torch.no_grad():
                own = {k: v.clone() for k, v in S.state_dict().items()}
                S.load_state_dict({k: v * 2 for k, v in own.items()})
                S(z)
                S.load_state_dict(own)

        def mode(x, y):
            S.eval()
            S(y)
            S.train()
        ops.update({'converted and restored': convert, 'state changed and restored': reload, 'evaluation mode': mode})
    if kind == 'jtfs' and cfg.get('F') != 0 and cfg.get('T') != 0:
        for t in ('time', 'joint'):
            ops['format ' + t] = switch(t, 'format')
    return ops


def walk(ops, deep):
    """a sequence in which every ordered pair of operations is consecutive (an Eulerian circuit), or every one once"""
    n = list(ops)
    if not deep:
        return n + n[::-1]
    left = {a: list(n) for a in n}
    st, out = [n[0]], []
    while st:
        if left[st[-1]]:
            st.append(left[st[-1]].pop())
        else:
            out.append(st.pop())
    return out[::-1]


def history(r, kind, backend, cfg, deep):
    S = make(kind, backend, **cfg)
    sig = prepad_shape(kind, cfg)
    B = (2,)
    ops = operations(kind, S, cfg, B)
    seq = walk(ops, deep)
    key = '%s %s %s: histories' % (kind, backend, nm(cfg))
    r.bound('%s %s: history of %d operations out of %s' % (kind, nm(cfg), len(seq), sorted(ops)))

    def prog(x, y):
        first = norm(kind, S(x))
        later = []
        for o in seq:
            ops[o](x, y)
            later.append(norm(kind, S(x)))
        return [first, later, x, y]

    def rel(o, x, y):
        first, later, x2, y2 = o
        rows = [('input unchanged', x2, x), ('other input unchanged', y2, y)]
        for q, (op, l) in enumerate(zip(seq, later)):
            rows.append(('after %d operations (%s): number' % (q + 1, op), len(l), len(first)))
            for (la, a), (lb, b) in zip(l, first):
                rows.append(('after %d operations (%s): label' % (q + 1, op), la, lb))
                rows.append(('after %d operations (%s): %s' % (q + 1, op, la), a, b))
        return rows
    before = snapshot(kind, S, backend)
    check_rel(r, key, prog, rel, [In('x', B + sig), In('y', B + sig)], backend, info=dict(kind=kind, cfg=cfg, seq=seq),
              tol=tol(kind, backend))
    after = snapshot(kind, S, backend)
    if len(before) != len(after) or any(a.shape != b.shape or not np.array_equal(a, b) for a, b in zip(before, after)):
        r.violation(key + ': filters unchanged', 'the filter values changed during the evaluations above', dict(kind=kind, cfg=cfg))
    else:
        r.ok(key + ': filters unchanged')


def buffer(r, kind, backend, cfg):
    """an input buffer that the caller reuses: the transform reads its present contents, whatever it held before"""
    S = make(kind, backend, **cfg)
    sig = prepad_shape(kind, cfg)
    key = '%s %s %s: reused input buffer' % (kind, backend, nm(cfg))
    r.bound('%s %s: one buffer overwritten between evaluations, as a whole and through a view' % (kind, nm(cfg)))

    def over(z, v):
        if backend == 'torch':
            z.copy_(v)
        else:
            z[...] = v

    def prog(x, y):
        z = y + 0
        a = norm(kind, S(z))
        over(z, x)
        b = norm(kind, S(z))
        over(z[:1], y[:1])
        c = norm(kind, S(z[:1]))
        return [a, norm(kind, S(y)), b, norm(kind, S(x)), c, norm(kind, S(y[:1]))]

    def rel(o, x, y):
        rows = []
        for k, when in enumerate(('before', 'after the buffer was overwritten', 'after a view of it was overwritten')):
            for (la, a), (lb, b) in zip(o[2 * k], o[2 * k + 1]):
                rows += [('%s: label' % when, la, lb), ('%s: %s' % (when, la), a, b)]
        return rows
    check_rel(r, key, prog, rel, [In('x', (2,) + sig), In('y', (2,) + sig)], backend, info=dict(kind=kind, cfg=cfg), tol=tol(kind, backend))


def snapshot(kind, S, backend):
    if kind == '3d':
        return [np.array(f) for f in filters3d(S)]
    F = FILTERS[id(S)]
    return [np.array(F.get(i)) for i in range(len(F.slots))]


def filters(r, kind, cfg):
    """symbolic filters (NumPy): evaluation leaves the filter arrays and the input as they were"""
    S = make(kind, 'numpy', **cfg)
    sig = prepad_shape(kind, cfg)
    key = '%s numpy %s: evaluation leaves input and filters untouched' % (kind, nm(cfg))
    r.bound('%s %s: symbolic filters' % (kind, nm(cfg)))
    if kind == '3d':
        shapes = [f.shape for f in filters3d(S)]

        def put(f):
            for k, v in enumerate(f):
                S.filters[k] = v

        def get():
            return list(S.filters)
    else:
        F = Filters(S, 'numpy', banks2d(S) if kind == '2d' else banks1d(S))
        shapes = [F.shape(i) for i in range(len(F.slots))]

        def put(f):
            F.put_symbolic(f)

        def get():
            return [lst[l] for lst, l in F.slots]

    def prog(x, *f):
        put(f)
        S(x)
        return [x, get()]

    def rel(o, x, *f):
        return [('input', o[0], x), ('number of filters', len(o[1]), len(f))] + [
            ('filter %d' % i, a, b) for i, (a, b) in enumerate(zip(o[1], f))]
    check_rel(r, key, prog, rel, [In('x', (1,) + sig)] + [In('f%d' % i, s, kind == '3d') for i, s in enumerate(shapes)], 'numpy',
              info=dict(kind=kind, cfg=cfg), tol=tol(kind, 'numpy'))


def jobs(tier):
    q = tier == 'quick'
    out = []
    for b in BACKENDS:
        for i, (kind, cfg) in enumerate(QUICK + (MORE if b == 'numpy' or not q else [])):
            if q and (b != 'numpy' and i in (2, 6, 9) or i - len(QUICK) in (10, 13)):
                continue
            out.append(job('checks.c24', 'history', 20, b, kind=kind, backend=b, cfg=cfg, deep=b == 'numpy' and i < len(QUICK) or not q, limit=1200 if q else 3000))
    for b in ('numpy', 'torch'):
        for i, (kind, cfg) in enumerate(QUICK + (MORE if not q else [])):
            if not (q and b == 'torch' and i in (2, 6, 9)):
                out.append(job('checks.c24', 'buffer', 8, b, kind=kind, backend=b, cfg=cfg, limit=800))
    for kind, cfg in QUICK + ([] if q else MORE):
        out.append(job('checks.c24', 'filters', 10, 'numpy', kind=kind, cfg=cfg, limit=800))
    return out
