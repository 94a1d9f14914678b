from .absb import *
from .casc import *
ASSUMPTIONS = ASSUME + [
    'bookkeeping: filter scales are arbitrary 0 <= j <= J-1, non-decreasing in the filter index (part "counts"); a filter is provided at the resolutions that C17 establishes; '
    'array contents are abstracted to resolution, permitted subsampling and history (contents are the subject of C15)',
    'counts: the numeric filter formulas are replaced by stand-ins, their values are the subject of C17']


class Rec2(Rec):
    """recording backend with two-dimensional signals (the two axes always share their resolution)"""

    def pad(self, x):
        return x.but(hist=x.hist + (('pad2',),))

    def unpad(self, x):
        self._t(x, 'unpad')
        if not x.real:
            raise BadOp('crop of a complex signal')
        return x.but(hist=x.hist + (('crop2',),))

    def stack(self, xs, *a, **k):
        return list(xs)


def both(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (bool, np.bool_)):
            return y if x else False
    return a & b


def either(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (bool, np.bool_)):
            return True if x else y
    return a | b


def bank(rec, js, thetas, J):
    def psi_at(j):
        # coarser than the finest: at most the scale of the wavelet and at most J-2 (the resolutions established by C17)
        return lambda l: both(l >= 0, either(l == 0, both(l <= j, l <= J - 2)))
    psi = [dict(j=j, theta=t, levels=Levels(rec, ('psi', i), j, psi_at(j))) for i, (j, t) in enumerate(zip(js, thetas))]
    phi = dict(j=J, levels=Levels(rec, ('phi',), J, lambda l: both(l >= 0, l < J)))
    return phi, psi


def verify(rec, out, js, thetas, J, order, exact_order=True):
    cs = rec.conds
    n = len(js)
    seen = {}
    prev = None
    for p in out:
        k = tuple(p['n'])
        cs.append(('path %s computed once' % (k,), k not in seen))
        seen[k] = p
        rank = (len(k),) + k
        cs.append(('paths ordered by order and filter index', prev is None or prev < rank))
        prev = rank
    cs.append(('zeroth-order path', () in seen))
    for i in range(n):
        cs.append(('first-order path %d' % i, (i,) in seen))
        for k in range(n):
            want = js[k] > js[i]
            if order < 2:
                want = False
            have = (i, k) in seen
            cs.append(('second-order path (%d,%d) exists exactly for increasing scales' % (i, k),
                       want if have else (~want if isinstance(want, SBool) else not want)))
    cs.append(('no other paths', all(len(k) <= order and all(0 <= i < n for i in k) for k in seen)))
    for k, p in seen.items():
        c = p['coef']
        cs.append(('path %s: number of scales and angles' % (k,), len(p['j']) == len(k) == len(p['theta'])))
        for q, i in enumerate(k):
            cs.append(('path %s: scale %d' % (k, q), p['j'][q] == js[i]))
            cs.append(('path %s: angle %d' % (k, q), p['theta'][q] == thetas[i]))
        ok = isinstance(c, Sig) and c.dom == 't' and c.real
        cs.append(('path %s: a real signal' % (k,), ok))
        if not ok:
            continue
        cs.append(('path %s: produced by its own filters, in order' % (k,),
                   flat(c.hist) == tuple(('psi', i) for i in k) + (('phi',),)))
        cs.append(('path %s: one modulus after every wavelet, padded first, cropped last' % (k,),
                   mods(c.hist) == ('f', 'modulus') * len(k) + ('f',) and c.hist[0] == ('pad2',) and c.hist[-1] == ('crop2',)
                   and [h[0] for h in c.hist].count('crop2') == 1))
        cs.append(('path %s: ends at resolution J' % (k,), c.res['sp'] == J))
    return cs


def x0():
    return Sig(['sp'], {'sp': 0}, {'sp': 0}, 't', True, ())


def core(r, n, order, Jmax):
    key = '2D cascade bookkeeping with %d filters, order %d' % (n, order)
    r.bound(key + ': every J in 1..%d, every non-decreasing assignment of scales, every angles' % Jmax)
    names = ['J'] + ['a%d' % i for i in range(n)] + ['t%d' % i for i in range(n)]

    def assume(v):
        c = [v['J'] >= 1, v['J'] <= Jmax]
        for i in range(n):
            c += [v['a%d' % i] >= 0, v['a%d' % i] < v['J'], v['t%d' % i] >= 0, v['t%d' % i] <= 16]
            if i:
                c.append(v['a%d' % (i - 1)] <= v['a%d' % i])
        return c

    def body(v):
        from kymatio.scattering2d.core.scattering2d import scattering2d
        rec = Rec2()
        js, ts = [v['a%d' % i] for i in range(n)], [v['t%d' % i] for i in range(n)]
        phi, psi = bank(rec, js, ts, v['J'])
        out = scattering2d(x0(), rec.pad, rec.unpad, rec, v['J'], 1, phi, psi, order, 'list')
        cs = verify(rec, out, js, ts, v['J'], order)
        # the array format stacks the same paths in the same order
        rec2 = Rec2()
        phi, psi = bank(rec2, js, ts, v['J'])
        arr = scattering2d(x0(), rec2.pad, rec2.unpad, rec2, v['J'], 1, phi, psi, order, 'array')
        cs.append(('array channels follow the list', isinstance(arr, list) and [a.hist for a in arr] == [p['coef'].hist for p in out]))
        return cs
    smp = [{'J': 4, **{'a%d' % i: i for i in range(n)}, **{'t%d' % i: i for i in range(n)}}]
    explore(r, key, body, names, assume, max_paths=200000, pow2=True, sample=smp)


def count(r, J, Lmax):
    """the real filterbank and the real cascade together"""
    key = '2D path counts, J=%d' % J
    r.bound('%s: L = 1..%d (the count does not depend on the image size; the smallest one is used)' % (key, Lmax))
    M = 2 ** J
    load_ints()
    from kymatio.scattering2d.filter_bank import filter_bank
    banks = {L: filter_bank(M, M, J, L) for L in range(1, Lmax + 1)}

    def body(v):
        from kymatio.scattering2d.core.scattering2d import scattering2d
        cs = []
        for L in range(1, Lmax + 1):
            f = banks[L]
            psi, phi = f['psi'], f['phi']
            want = [(j, t) for j in range(J) for t in range(L)]
            cs.append(('L=%d: wavelets ordered by scale, then angle' % L, [(p['j'], p['theta']) for p in psi] == want))
            cs.append(('L=%d: scale of the low-pass filter' % L, phi['j'] == J))
            cs.append(('L=%d: resolution of the filter versions' % L,
                       all(im.shape == (M >> i, M >> i) for p in psi + [phi] for i, im in enumerate(p['levels']))))

            def lev(name, d):
                have = len(d['levels'])
                return dict(d, levels=Levels(rec, name, d['j'], lambda l: 0 <= l < have))
            for order in (1, 2):
                rec = Rec2()
                P = [lev(('psi', i), p) for i, p in enumerate(psi)]
                out = scattering2d(x0(), rec.pad, rec.unpad, rec, J, L, lev(('phi',), phi), P, order, 'list')
                n1 = sum(len(p['n']) == 1 for p in out)
                n2 = sum(len(p['n']) == 2 for p in out)
                cs.append(('L=%d order %d: number of paths' % (L, order), (len(out), n1, n2) ==
                           (1 + J * L + (order > 1) * L * L * J * (J - 1) // 2, J * L, (order > 1) * L * L * J * (J - 1) // 2)))
                bad = [a for a, b in verify(rec, out, [w[0] for w in want], [w[1] for w in want], J, order) if not b]
                cs.append(('L=%d order %d: %s' % (L, order, bad[0] if bad else 'labels, filters and resolutions'), not bad))
        return cs
    explore(r, key, body, [])


def formats(r, backend, cfg, batch):
    """list and array outputs of the real frontends hold the same coefficients, path by path"""
    nm = ' '.join('%s=%s' % (k, v) for k, v in sorted(cfg.items()))
    key = '2D formats %s %s batch %s' % (backend, nm, tuple(batch))
    r.bound('2D list and array outputs %s batch %s' % (nm, tuple(batch)))
    S, A = make2d(backend, out_type='list', **cfg), make2d(backend, out_type='array', **cfg)
    for s in (S, A):
        Filters(s, backend, banks2d(s)).randomise(5)
    c = Cfg2D(S, cfg)

    def prog(x):
        out = S(x)
        return [A(x), [p['coef'] for p in out], [[list(map(int, p[k])) for k in ('j', 'n', 'theta')] for p in out]]

    def rel(o, x):
        arr, coefs, labels = o
        ch = len(batch)
        rows = [('number of channels', arr.shape[ch], len(coefs))]
        if arr.shape[ch] == len(coefs):
            rows += [('channel %d' % i, np.take(arr, i, ch), q) for i, q in enumerate(coefs)]
        L = cfg.get('L', 8)
        rows += [('labels of path %d' % i, [l[0], l[2]], [[k // L for k in l[1]], [k % L for k in l[1]]]) for i, l in enumerate(labels)]
        rows.append(('order of the paths', [l[1] for l in labels], sorted([l[1] for l in labels], key=lambda k: (len(k), k))))
        return rows
    check_rel(r, key, prog, rel, [In('x', tuple(batch) + c.shape)], backend, info=dict(cfg=cfg))


def counts(tier):
    q = tier == 'quick'
    return [job('checks.c16', 'count', 5 + 2 ** J, J=J, Lmax=(4 if J < 5 else 2 if J < 7 else 1) if q else 8 if J < 8 else 2, limit=800 if q else 3000)
            for J in range(1, 8 if q else 10)]


def jobs(tier):
    q, deep = False, tier != 'quick'
    out = []
    for n, order in ((2, 1), (2, 2), (3, 2)) + (() if q else ((4, 2),) + (((5, 2),) if deep else ())):
        out.append(job('checks.c16', 'core', 5 * n * n, n=n, order=order, Jmax=40 if deep else 24, limit=3000 if deep else 800))
    out += counts(tier)
    cfgs = [dict(J=2, shape=(4, 6), L=2), dict(J=2, shape=(5, 4), L=3, max_order=1), dict(J=1, shape=(3, 2), L=2), dict(J=2, shape=(7, 9), L=1)]
    if not q:
        cfgs += [dict(J=3, shape=(8, 8), L=2), dict(J=2, shape=(8, 4), L=4), dict(J=3, shape=(11, 9), L=1)]
    for b in BACKENDS:
        for i, cfg in enumerate(cfgs):
            out.append(job('checks.c16', 'formats', 10, b, backend=b, cfg=cfg, batch=((), (2,), (1, 2))[i % 3], limit=800))
    return out
