from .absb import *
ASSUMPTIONS = ASSUME + [
    'filter scales are arbitrary: 0 <= j <= J for every filter, non-decreasing in the filter index, the largest second-order scale at most the largest '
    'first-order scale (C09); a filter is provided at the resolutions that C10 establishes for the filterbank',
    'array contents are abstracted to resolution, permitted subsampling and history; contents are the subject of C06']


def smax(xs):
    m = xs[0]
    for x in xs[1:]:
        m = x if x > m else m
    return m


def core(r, n1, n2, mode, order, Jmax):
    key = '1D cascade bookkeeping with %d first-order and %d second-order filters, %s, order %d' % (n1, n2, mode, order)
    r.bound(key + ': every J <= %d, every scale 0..J, every averaging scale and stride' % Jmax)
    names = ['J', 'lT', 'ls'] + ['a%d' % i for i in range(n1)] + ['b%d' % i for i in range(n2)]

    def assume(v):
        c = [v['J'] >= 0, v['J'] <= Jmax, v['lT'] >= 0, v['lT'] <= Jmax + 2]
        if mode == 'local':
            c += [v['ls'] >= 0, v['ls'] <= v['lT']]
        else:
            c += [v['ls'] == v['lT'], v['lT'] == v['J']]
        for i in range(n1):
            c += [v['a%d' % i] >= 0, v['a%d' % i] <= v['J']] + ([v['a%d' % (i - 1)] <= v['a%d' % i]] if i else [])
        for i in range(n2):
            c += [v['b%d' % i] >= 0, SBool(z3.Or(*[z3.Int('b%d' % i) <= z3.Int('a%d' % k) for k in range(n1)]))]
            c += [v['b%d' % (i - 1)] <= v['b%d' % i]] if i else []
        return c

    def body(v):
        from kymatio.scattering1d.core.scattering1d import scattering1d
        rec = Rec()
        J, lT, ls = v['J'], v['lT'], v['ls']
        a = [v['a%d' % i] for i in range(n1)]
        b = [v['b%d' % i] for i in range(n2)]
        mj = smax(a + b)
        m1 = smax(a)
        loc = mode == 'local'
        phi = dict(j=lT, xi=0, sigma=.1, N=64, levels=Levels(rec, ('phi',), lT, lambda l: (0 <= l) & (l <= smax([lT, mj - 1]))
                                                             if isinstance(l, SInt) else 0 <= l and l <= smax([lT, mj - 1])))
        psi1 = [dict(j=a[i], xi=.3, sigma=.1, levels=Levels(rec, ('psi1', i), a[i], lambda l: l == 0)) for i in range(n1)]

        def prov(i):
            def p(l):
                if isinstance(l, SInt) or any(isinstance(t, SInt) for t in (b[i], lT, m1)):
                    return (l == 0) | ((l > 0) & (l < b[i]) & (l <= lT) & (l < m1)) if not isinstance(l == 0, bool) else (
                        True if l == 0 else (l < b[i]) & (l <= lT) & (l < m1) & (l > 0))
                return l == 0 or 0 < l < b[i] and l <= lT and l < m1
            return p
        psi2 = [dict(j=b[i], xi=.3, sigma=.1, levels=Levels(rec, ('psi2', i), b[i], prov(i))) for i in range(n2)]
        filters = [phi, psi1, psi2][:1 + order]
        x = Sig(['time'], {'time': 0}, {'time': 0}, 't', True, ())
        out = list(scattering1d(x, rec, filters, ls, loc))
        cs = rec.conds
        seen = {}
        for p in out:
            n = tuple(p['n'])
            cs.append(('path %s computed once' % (n,), n not in seen))
            seen[n] = p
        cs.append(('zeroth-order path', () in seen))
        for i in range(n1):
            cs.append(('first-order path %d' % i, (i,) in seen))
            for k in range(n2):
                if order > 1:
                    have = (i, k) in seen
                    want = b[k] > a[i]
                    cs.append(('second-order path (%d,%d) exists exactly for increasing scales' % (i, k),
                               want if have else (~want if isinstance(want, SBool) else not want)))
        cs.append(('no other paths', all(len(n) <= order and (not n or n[0] < n1) and (len(n) < 2 or n[1] < n2) for n in seen)))
        for n, p in seen.items():
            c = p['coef']
            js = tuple([a[n[0]]] if len(n) > 0 else []) + tuple([b[n[1]]] if len(n) > 1 else [])
            pj = tuple(p['j'])
            cs.append(('path %s: number of scales' % (n,), len(pj) == len(js)))
            for q, (s, t) in enumerate(zip(pj, js)):
                cs.append(('path %s: scale %d' % (n, q), s == t))
            want = ()
            for q, i in enumerate(n):
                want += (('psi%d' % (q + 1), i),)
            if loc:
                want += (('phi',),)
            ok = isinstance(c, Sig) and c.dom == 't' and c.real
            cs.append(('path %s: a real signal' % (n,), ok))
            if not ok:
                continue
            cs.append(('path %s: produced by its own filters, in order' % (n,), flat(c.hist) == want))
            cs.append(('path %s: one modulus after every wavelet' % (n,),
                       mods(c.hist) == ('f', 'modulus') * len(n) + (('f',) if loc else ())))
            cs.append(('path %s: ends at the %s' % (n, 'output stride' if loc else 'scale of its last wavelet'),
                       c.res['time'] == (ls if loc else (js[-1] if js else 0))))
        return cs
    smp = [dict(J=3, lT=3, ls=3, **{'a%d' % i: 3 - n1 + 1 + i for i in range(n1)}, **{'b%d' % i: 3 - n2 + 1 + i for i in range(n2)})]
    if mode == 'local':
        smp.append(dict(smp[0], ls=1))
        smp.append(dict(smp[0], lT=2, ls=1))
    explore(r, key, body, names, assume, max_paths=200000, pow2=True, sample=smp)


def jobs(tier):
    q, deep = False, tier != 'quick'
    J = 60 if deep else 30
    out = []
    for mode in ('local', 'none'):
        out.append(job('checks.c07', 'core', 1, n1=3, n2=0, mode=mode, order=1, Jmax=J, limit=800))
        for n1, n2 in ((1, 1), (1, 2), (2, 1), (2, 2)) + (() if q else ((3, 2), (2, 3), (3, 3)) + (((4, 3), (3, 4)) if deep else ())):
            out.append(job('checks.c07', 'core', n1 * n2 * 5, n1=n1, n2=n2, mode=mode, order=2, Jmax=J, limit=800 if q else 3000))
    return out
