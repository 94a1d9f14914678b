from .common import *
from .casc import *
from . import c21, jcore
ASSUMPTIONS = ASSUME + [
    'filter values are independent generic dyadic values per filter and resolution (a coefficient put in the wrong place '
    'cannot agree by coincidence)']
FIELDS = ('xi', 'sigma', 'j')
NAN = float('nan')


def cell(q):
    return [q.start, q.stop, q.step] if isinstance(q, range) else float(q)


def agree(r, backend, cfg, batch=()):
    nm = ' '.join('%s=%s' % (k, v) for k, v in sorted(cfg.items()))
    key = 'JTFS metadata and formats %s %s batch %s' % (backend, nm, tuple(batch))
    r.bound('JTFS list, dict, array outputs and metadata: %s' % nm)
    joint = cfg.get('format', 'time') == 'joint'
    types = ['list', 'dict'] + ([] if cfg.get('T') == 0 or joint and cfg.get('F') == 0 else ['array'])
    Ss = {t: makej(backend, out_type=t, **cfg) for t in types}
    for s in Ss.values():
        Filters(s, backend, banks1d(s)).randomise(5)
    S0 = Ss['list']
    pf, p1, p2 = S0.filters_fr[1], S0.psi1_f, S0.psi2_f

    def describe(S):
        m = S.meta()
        return [[list(map(int, k)) for k in m['key']], [[cell(q) for q in row] for row in m['n']],
                [float(q) for q in m['n_fr']], [int(q) for q in m['order']], [float(q) for q in m['spin']],
                {f: [[float(q) for q in row] for row in m[f]] for f in FIELDS},
                {f: [float(q) for q in m[f + '_fr']] for f in FIELDS}]
    metas = [public(key + ': metadata is available', lambda: describe(Ss[t]), backend=backend, cfg=cfg) for t in types]
    sizes = [public(key + ': output size is available', lambda: int(Ss[t].output_size()), cfg=cfg) for t in types]

    def prog(x):
        out = S0(x)
        dc = Ss['dict'](x)
        arr = Ss['array'](x) if 'array' in Ss else None
        lab = [[list(map(int, p['n'])), int(p['order']), int(p['n_fr'][0]) if 'n_fr' in p else None,
                float(p['spin']) if 'spin' in p else None, [int(p['n1_max']), int(p['n1_stride'])] if 'n1_max' in p else None] for p in out]
        return [lab, [p['coef'] for p in out], [[list(map(int, k)), v] for k, v in dc.items()], arr]

    def rel(o, x):
        lab, coefs, dc, arr = o
        rows = []
        keys = [l[0] for l in lab]
        rows.append(('every path once', len(set(map(tuple, keys))), len(keys)))
        rows.append(('dict holds the listed paths', sorted(k for k, _ in dc), sorted(keys)))
        d = {tuple(k): v for k, v in dc}
        for k, c in zip(keys, coefs):
            if tuple(k) in d:
                rows.append(('dict entry %s' % (k,), d[tuple(k)], c))
        skip = 1 if joint else 0
        if arr is not None:
            ax = len(batch)
            rows.append(('array entries', arr.shape[ax], len(coefs) - skip))
            if arr.shape[ax] == len(coefs) - skip:
                for i, c in enumerate(coefs[skip:]):
                    a = np.take(arr, i, ax)
                    if joint:
                        a = a[..., :c.shape[-2], :]
                    rows.append(('array entry %d' % i, a, c))
        # what the metadata must say about each listed coefficient
        for t, m, size in zip(types, metas, sizes):
            sel = list(range(skip if t == 'array' else 0, len(lab)))
            L = [lab[i] for i in sel]
            W = '%s: ' % t
            rows.append((W + 'output size', size, len(L)))
            rows.append((W + 'keys', m[0], [l[0] for l in L]))
            rows.append((W + 'orders', m[3], [l[1] for l in L]))
            rows.append((W + 'frequential filters', m[2], [NAN if l[2] is None else float(l[2]) for l in L]))
            rows.append((W + 'spins', m[4], [NAN if l[2] is None else float(np.sign(pf[l[2]]['xi'])) for l in L]))
            rows.append((W + 'spins of the coefficients', [0. if l[3] is None else l[3] for l in L],
                         [0. if l[2] is None else float(np.sign(pf[l[2]]['xi'])) for l in L]))
            n1s, n2s = [], []
            for n, o_, f, s, rg in L:
                if o_ == 0:
                    n1s.append(NAN), n2s.append(NAN)
                elif joint:
                    n1s.append([0, rg[0], rg[1]])
                    n2s.append(float(n[0]) if o_ == 2 else NAN)
                else:
                    n1s.append(float(n[0]))
                    n2s.append(float(n[1]) if o_ == 2 else NAN)
            rows.append((W + 'temporal filters', m[1], [list(p) for p in zip(n1s, n2s)]))
            for f in FIELDS:
                rows.append((W + f, m[5][f], [[NAN if isinstance(a, list) or a != a else float(p1[int(a)][f]),
                                               NAN if b != b else float(p2[int(b)][f])] for a, b in zip(n1s, n2s)]))
                rows.append((W + f + '_fr', m[6][f], [NAN if l[2] is None else float(pf[l[2]][f]) for l in L]))
        return rows
    check_rel(r, key, prog, rel, [In('x', tuple(batch) + (cfg['shape'],))], backend, info=dict(cfg=cfg))


def group(r, backend, cfgs):
    for c in cfgs:
        agree(r, backend, c)


def strip(g):
    out = []
    for c in g:
        c = {k: v for k, v in c.items() if k != 'out_type'}
        if c not in out:
            out.append(c)
    return out


def jobs(tier):
    q = tier == 'quick'
    out = jcore.metajobs(tier)
    Q = strip(c21.QUICK)
    for b in BACKENDS:
        for i, cfg in enumerate(Q if b == 'numpy' or not q else Q[:4]):
            out.append(job('checks.c22', 'agree', 10, b, backend=b, cfg=cfg, batch=((), (2,))[i % 2], limit=1200))
    g = strip(c21.grid(tier))
    for i in range(0, len(g), 5):
        out.append(job('checks.c22', 'group', 15, 'numpy', backend='numpy', cfgs=g[i:i + 5], limit=1200))
    return out
