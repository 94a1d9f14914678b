from .absb import *
from .casc import *
ASSUMPTIONS = ASSUME + [
    'formats: filter values are independent generic dyadic values per filter and resolution (a coefficient put in the wrong '
    'place cannot agree by coincidence)',
    'metadata: filter scales are arbitrary and non-decreasing in the filter index (C09); the cascade and metadata are the '
    'real code, array contents are abstracted']
FIELDS = ('xi', 'sigma', 'j')


def names(cfg):
    return ' '.join('%s=%s' % (k, v) for k, v in sorted(cfg.items()))


def formats(r, backend, cfg, batch):
    key = '1D formats %s %s batch %s' % (backend, names(cfg), tuple(batch))
    r.bound('1D list, dict and array outputs, metadata and sizes: %s batch %s' % (names(cfg), tuple(batch)))
    types = ['list', 'dict'] + (['array'] if cfg.get('T') != 0 else [])
    Ss = {t: make1d(backend, out_type=t, **cfg) for t in types}
    for s in Ss.values():
        Filters(s, backend, banks1d(s)).randomise(5)
    N = cfg['shape']
    S0 = Ss['list']
    mo = cfg.get('max_order', 2)
    banks = [S0.psi1_f, S0.psi2_f][:mo]

    def prog(x):
        out = S0(x)
        again = {t: s(x) for t, s in Ss.items() if t != 'list'}
        metas = [[[tuple(int(i) for i in k) for k in m['key']], [[float(q) for q in row] for row in np.asarray(m['n'], float)],
                  [int(o) for o in m['order']], {f: [[float(q) for q in row] for row in np.asarray(m[f], float)] for f in FIELDS}]
                 for m in (s.meta() for s in Ss.values())]
        sizes = [[int(s.output_size()), [int(t) for t in s.output_size(detail=True)]] for s in Ss.values()]
        after = S0(x)
        return [[[list(map(int, p['n'])), list(map(int, p['j'])), p['coef'], int(p['order'])] for p in out],
                [[list(k), v] for k, v in again['dict'].items()], again.get('array'), metas, sizes, [p['coef'] for p in after]]

    def rel(o, x):
        out, dc, arr, metas, sizes, after = o
        keys = [p[0] for p in out]
        rows = [('list ordered by order and filter index', keys, sorted(keys, key=lambda k: (len(k), k))),
                ('every path once', len({tuple(k) for k in keys}), len(keys)),
                ('order of a path', [p[3] for p in out], [len(k) for k in keys]),
                ('dict keys', sorted(k for k, _ in dc), sorted(keys)), ('same number after metadata', len(after), len(out))]
        d = {tuple(k): v for k, v in dc}
        for i, p in enumerate(out):
            nm = tuple(p[0])
            rows.append(('scales of path %s' % (nm,), p[1], [int(b[n]['j']) for b, n in zip(banks, nm)]))
            if nm in d:
                rows.append(('dict entry %s' % (nm,), d[nm], p[2]))
            rows.append(('path %s after metadata' % (nm,), after[i], p[2]))
        if arr is not None:
            ax = len(batch)
            rows.append(('array rows', arr.shape[ax], len(out)))
            if arr.shape[ax] == len(out):
                rows += [('array row %d' % i, np.take(arr, i, ax), p[2]) for i, p in enumerate(out)]
        for t, m, s in zip(Ss, metas, sizes):
            rows += [('metadata keys (%s)' % t, m[0], [tuple(k) for k in keys]), ('metadata order', m[2], [len(k) for k in keys])]
            rows.append(('metadata n', m[1], [[float(i) for i in k] + [float('nan')] * (mo - len(k)) for k in keys]))
            for f in FIELDS:
                rows.append(('metadata %s' % f, m[3][f], [[float(b[i][f]) for b, i in zip(banks, k)] + [float('nan')] * (mo - len(k))
                                                           for k in keys]))
            rows.append(('output size', s[0], len(out)))
            det = [sum(len(k) == q for k in keys) for q in range(mo + 1)]
            rows.append(('output size per order', s[1] + [0] * (mo + 1 - len(s[1])), det))
        return rows
    check_rel(r, key, prog, rel, [In('x', tuple(batch) + (N,))], backend, info=dict(cfg=cfg))


class Tag(SInt):
    """a symbolic scale that can be stored in a float array (as a tag) by the metadata code"""
    tags = {}

    def __float__(self):
        k = 1000. + len(Tag.tags)
        Tag.tags[k] = self
        return k


def meta(r, n1, n2, order, mode, Jmax, cls='Scattering1D'):
    key = '1D metadata with %d first-order and %d second-order filters, %s, order %d' % (n1, n2, mode, order)
    r.bound(key + ': every non-decreasing scale <= %d, every averaging scale and stride' % Jmax)
    load_ints()
    T = {'local': None, 'none': 0, 'global': 'global'}[mode]
    S = make1d('numpy', 'Scattering1D', J=2, shape=16, T=T, max_order=order, out_type='list')
    nm = ['lT', 'ls'] + ['a%d' % i for i in range(n1)] + ['b%d' % i for i in range(n2)]

    def assume(v):
        c = [v['lT'] >= 0, v['lT'] <= Jmax, v['ls'] >= 0, v['ls'] <= v['lT']]
        for q, n in (('a', n1), ('b', n2)):
            for i in range(n):
                c += [v['%s%d' % (q, i)] >= 0, v['%s%d' % (q, i)] <= Jmax]
                c += [v['%s%d' % (q, i - 1)] <= v['%s%d' % (q, i)]] if i else []
        return c

    class Sub(type(S)):
        log2_stride = property(lambda self: self._vk_ls)
        log2_T = property(lambda self: self._vk_lT)
    S.__class__ = Sub

    def body(v):
        from kymatio.scattering1d.core.scattering1d import scattering1d
        Tag.tags.clear()

        def t(x):
            if isinstance(x, SInt):
                y = Tag.__new__(Tag)
                for s in SInt.__slots__ if hasattr(SInt, '__slots__') else ():
                    setattr(y, s, getattr(x, s))
                y.__dict__.update(getattr(x, '__dict__', {}))
                return y
            return x
        a, b = [t(v['a%d' % i]) for i in range(n1)], [t(v['b%d' % i]) for i in range(n2)]
        S._vk_ls, S._vk_lT = v['ls'], v['lT']

        class Any:
            def __getitem__(self, l):
                return None
        S.phi_f = dict(j=v['lT'], xi=0, sigma=.1, N=64, levels=Any())
        S.psi1_f = [dict(j=a[i], xi=.3 - i / 100, sigma=.1 - i / 100, levels=Any()) for i in range(n1)]
        S.psi2_f = [dict(j=b[i], xi=.2 - i / 100, sigma=.05 - i / 100, levels=Any()) for i in range(n2)]
        banks = [S.psi1_f, S.psi2_f][:order]
        m = S.meta()
        size, det = S.output_size(), S.output_size(detail=True)
        lev = [dict(p, levels=Levels(Rec(), 'x', p['j'], lambda l: True)) for p in S.psi1_f]
        lev2 = [dict(p, levels=Levels(Rec(), 'x', p['j'], lambda l: True)) for p in S.psi2_f]

        class Free(Rec):
            def cdgmm(self, x, f):
                return x

            def subsample_fourier(self, x, k):
                return x

            def irfft(self, x):
                return x.but(dom='t', real=True)
        x = Sig(['time'], {'time': 0}, {'time': 0}, 't', True, ())
        out = list(scattering1d(x, Free(), [dict(S.phi_f, levels=Levels(Rec(), 'x', v['lT'], lambda l: True)), lev, lev2][:1 + order],
                                v['ls'], mode == 'local'))
        keys = sorted([tuple(p['n']) for p in out], key=lambda k: (len(k), k))
        cs = [('metadata lists the paths of the transform, in order', [tuple(k) for k in m['key']] == keys),
              ('metadata order', [int(o) for o in m['order']] == [len(k) for k in keys]),
              ('output size', size == len(keys)),
              ('output size per order', tuple(int(d) for d in det if d) == tuple(d for d in (sum(len(k) == q for k in keys) for q in range(order + 1)) if d))]

        def same(x, y):
            if x in Tag.tags:
                x = Tag.tags[x]
            return x == y
        rows = np.asarray(m['n'], dtype=float)
        for i, k in enumerate(keys):
            if rows.shape != (len(keys), order):
                cs.append(('metadata shape', False))
                break
            for q in range(order):
                if q < len(k):
                    cs.append(('metadata filter index of %s' % (k,), float(rows[i, q]) == k[q]))
                    for f in FIELDS:
                        cs.append(('metadata %s of path %s' % (f, k), same(float(m[f][i, q]), banks[q][k[q]][f])))
                else:
                    cs.append(('metadata padded with nan', all(np.isnan(float(t[i, q])) for t in [rows] + [m[f] for f in FIELDS])))
        return cs
    smp = [dict(lT=3, ls=2, **{'a%d' % i: i for i in range(n1)}, **{'b%d' % i: i + 1 for i in range(n2)})]
    explore(r, key, body, nm, assume, max_paths=20000, sample=smp, pow2=True)


QUICK = [dict(J=2, shape=8, Q=1), dict(J=2, shape=9, Q=1, T=0), dict(J=2, shape=8, Q=1, T='global'),
         dict(J=3, shape=11, Q=1, stride=2), dict(J=2, shape=10, Q=1, T=2), dict(J=3, shape=10, Q=2, T=1),
         dict(J=2, shape=7, Q=2, max_order=1), dict(J=2, shape=5, Q=1, max_order=1, T=0), dict(J=3, shape=9, Q=(2, 2), oversampling=1),
         dict(J=2, shape=6, Q=1, max_order=1, T='global')]
MORE = [dict(J=3, shape=16, Q=2), dict(J=3, shape=17, Q=(2, 2)), dict(J=3, shape=16, Q=1, T=0), dict(J=4, shape=20, Q=1, stride=2),
        dict(J=3, shape=13, Q=3, T=5), dict(J=1, shape=3, Q=1), dict(J=3, shape=14, Q=(3, 1), T='global'), dict(J=2, shape=4, Q=1, stride=4),
        dict(J=1, shape=4, Q=4), dict(J=4, shape=16, Q=1, T=3)]


def jobs(tier):
    q = tier == 'quick'
    out = []
    for b in BACKENDS:
        for i, cfg in enumerate(QUICK if b == 'numpy' or not q else QUICK[:3] + QUICK[6:8]):
            out.append(job('checks.c08', 'formats', 10, b, backend=b, cfg=cfg, batch=((), (2,), (1, 2))[i % 3], limit=800))
        for i, cfg in enumerate(MORE if not q else MORE[:2] if b == 'numpy' else []):
            out.append(job('checks.c08', 'formats', 20, b, backend=b, cfg=cfg, batch=((), (2,))[i % 2], limit=1200))
    for mode in ('local', 'none', 'global'):
        for n1, n2, o in ((3, 0, 1), (2, 2, 2), (3, 3, 2)) + (() if q else ((4, 3, 2), (4, 4, 2))):
            out.append(job('checks.c08', 'meta', 5, n1=n1, n2=n2, order=o, mode=mode, Jmax=8 if q else 20, limit=800))
    return out
