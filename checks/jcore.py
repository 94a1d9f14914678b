"""Bookkeeping of joint time-frequency scattering for arbitrary filter scales, averaging scales and strides on both axes (C21, C22)."""
from .absb import *
from .c07 import smax


class RecJ(Rec):
    def irfft(self, x):
        y = self.ifft(x)
        if not (y.hist and y.hist[-1][0] == 'filter' and str(y.hist[-1][1]).startswith('phi')):
            raise BadOp('real inverse transform after a band-pass filter')
        return y.but(real=True)

    def stack(self, xs, dim=None):
        if dim not in (2, -2):
            raise BadOp('stack along axis %r' % (dim,))
        return super().stack(xs)

    def split_frequency_axis(self, x):
        self._t(x, 'split')
        return Split(x)


class Split:
    """slices along the frequency axis"""

    def __init__(self, x):
        self.x = x

    def __getitem__(self, i):
        return self.x.but(axes=[a for a in self.x.axes if a != 'freq'], hist=self.x.hist + (('slice', i),))


def conj(*cs):
    out = True
    for c in cs:
        if isinstance(c, (bool, np.bool_)):
            if not c:
                return False
        else:
            out = c if out is True else out & c
    return out


def disj(*cs):
    out = False
    for c in cs:
        if isinstance(c, (bool, np.bool_)):
            if c:
                return True
        else:
            out = c if out is False else out | c
    return out


def neg(c):
    return ~c if isinstance(c, SBool) else not c


def eqv(a, b):
    """equality of nested histories, as a condition"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return conj(*[eqv(x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    return a == b


def build(v, n1, n2, nf, mode, fmode, rec):
    a = [v['a%d' % i] for i in range(n1)]
    b = [v['b%d' % i] for i in range(n2)]
    f = [v['f%d' % i] for i in range(nf)]
    J, lT, lF, m1, mj = v['J'], v['lT'], v['lF'], smax(a), smax(a + b)
    top = smax([lT, mj - 1])
    zero = lambda l: l == 0
    phi = dict(j=lT, xi=0, sigma=.1, N=64, levels=Levels(rec, ('phi',), lT, lambda l: conj(l >= 0, l <= top)))
    psi1 = [dict(j=a[i], xi=.3, sigma=.1, levels=Levels(rec, ('psi1', i), a[i], zero)) for i in range(n1)]

    def prov(i):
        return lambda l: disj(l == 0, conj(l > 0, l < b[i], l <= lT, l < m1))
    psi2 = [dict(j=b[i], xi=.3, sigma=.1, levels=Levels(rec, ('psi2', i), b[i], prov(i))) for i in range(n2)]
    pf = dict(j=lF, xi=0, sigma=.1, N=v['Nf'], levels=Levels(rec, ('phi_fr',), lF, lambda l: conj(l >= 0, l <= lF)))
    psf = [dict(j=v['Jf'], xi=0, sigma=.1, levels=Levels(rec, ('psi_fr', 0), v['Jf'], zero))]
    # as spin() lays them out: the positive frequencies, then the negative ones
    for s in (1, -1):
        for i in range(nf):
            psf.append(dict(j=f[i], xi=s * (.3 - .05 * i), sigma=.1, levels=Levels(rec, ('psi_fr', len(psf)), f[i], zero)))
    return a, b, [J] + f, [phi, psi1, psi2], [pf, psf]


def inputs(n1, n2, nf, mode, fmode, Jmax):
    names = ['J', 'lT', 'ls', 'Jf', 'lF', 'lsf', 'Nf'] + ['a%d' % i for i in range(n1)] + ['b%d' % i for i in range(n2)] + \
        ['f%d' % i for i in range(nf)]

    def assume(v):
        c = [v['J'] >= 0, v['J'] <= Jmax, v['Jf'] >= 0, v['Jf'] <= Jmax, v['lT'] >= 0, v['lT'] <= Jmax + 2,
             v['lF'] >= 0, v['lF'] <= Jmax + 2, v['Nf'] >= n1, v['Nf'] <= 1 << 12]
        for m, l, s, J in ((mode, 'lT', 'ls', 'J'), (fmode, 'lF', 'lsf', 'Jf')):
            if m == 'local':
                c += [v[s] >= 0, v[s] <= v[l]]
            else:
                c += [v[s] == v[l], v[l] == v[J]]
        for i in range(n1):
            c += [v['a%d' % i] >= 0, v['a%d' % i] <= v['J']] + ([v['a%d' % (i - 1)] <= v['a%d' % i]] if i else [])
        for i in range(n2):
            c += [v['b%d' % i] >= 0, SBool(z3.Or(*[z3.Int('b%d' % i) <= z3.Int('a%d' % k) for k in range(n1)]))]
            c += [v['b%d' % (i - 1)] <= v['b%d' % i]] if i else []
        for i in range(nf):
            c += [v['f%d' % i] >= 0, v['f%d' % i] <= v['Jf']] + ([v['f%d' % (i - 1)] <= v['f%d' % i]] if i else [])
        return c
    s0 = dict(J=3, lT=3, ls=3, Jf=2, lF=2, lsf=2, Nf=32, **{'a%d' % i: i for i in range(n1)}, **{'b%d' % i: n1 + i if n1 + i <= n1 - 1 else n1 - 1
              for i in range(n2)}, **{'f%d' % i: min(i, 2) for i in range(nf)})
    return names, assume, s0


def core(r, n1, n2, nf, mode, fmode, format, out_type, Jmax):
    key = 'JTFS bookkeeping with %d, %d and %d filters, time %s, frequency %s, %s %s' % (n1, n2, nf, mode, fmode, format, out_type)
    r.bound(key + ': every J, J_fr <= %d, every scale, averaging scale and stride on both axes' % Jmax)
    names, assume, s0 = inputs(n1, n2, nf, mode, fmode, Jmax)

    def body(v):
        from kymatio.scattering1d.core.timefrequency_scattering import joint_timefrequency_scattering, jtfs_average_and_format
        rec = RecJ()
        a, b, _, filters, ffr = build(v, n1, n2, nf, mode, fmode, rec)
        jf = [p['j'] for p in ffr[1]]
        xi = [p['xi'] for p in ffr[1]]
        ls, lsf, lF = v['ls'], v['lsf'], v['lF']
        loc, floc = mode == 'local', fmode == 'local'
        av = {'local': 'local', 'global': 'global', 'none': False}
        x = Sig(['time'], {'time': 0, 'freq': 0}, {'time': 0, 'freq': 0}, 't', True, ())
        U = joint_timefrequency_scattering(x, rec, filters, ls, loc, ffr, lsf, floc)
        out = list(jtfs_average_and_format(U, rec, filters[0], ls, av[mode], ffr[0], lsf, av[fmode], out_type, format))
        cs = rec.conds
        crop = not (out_type == 'array' and format == 'joint')
        # zeroth order
        p = out[0]
        cs.append(('zeroth order first', tuple(p['n']) == () and p['order'] == 0))
        w = ((('filter', 'phi'),) if loc else ()) + ((('global', 'time'),) if mode == 'global' else ())
        cs.append(('zeroth order', isinstance(p['coef'], Sig) and eqv(p['coef'].hist, w)))
        cs.append(('zeroth order: resolution', isinstance(p['coef'], Sig) and
                   (p['coef'].res['time'] is None if mode == 'global' else p['coef'].res['time'] == (ls if loc else 0))))
        seen = {}
        prev = None
        for p in out[1:]:
            n = tuple(p['n'])
            k = n if format == 'joint' else n[1:]
            cs.append(('path %s computed once' % (n,), n not in seen))
            if format == 'joint':
                rank = (len(k),) + k
            else:
                rank = (len(k),) + k + (n[0],)
            cs.append(('path %s: ordered by order, then filters' % (n,), prev is None or prev < rank))
            prev = rank
            seen[n] = p
        for p in out[1:]:
            n = tuple(p['n'])
            k = n if format == 'joint' else n[1:]
            o = len(k)
            m = k[-1]
            ok = o in (1, 2) and 0 <= m < len(jf) and (o == 1 or 0 <= k[0] < n2)
            cs.append(('path %s exists' % (n,), ok))
            if not ok:
                continue
            if o == 1:
                # real input: frequency filters with non-negative spin, numbered among those
                pos = [i for i, q in enumerate(xi) if q >= 0]
                cs.append(('path %s: spin' % (n,), m < len(pos)))
                if m >= len(pos):
                    continue
                g = pos[m]
                members = list(range(n1))
                lead = lambda i: (('filter', 'psi1', i), ('modulus',), ('filter', 'phi'))
            else:
                g = m
                members = None
                lead = lambda i: (('filter', 'psi1', i), ('modulus',), ('filter', 'psi2', k[0]))
            c = p['coef']
            if not isinstance(c, Sig):
                cs.append(('path %s: a signal' % (n,), False))
                continue
            h = list(c.hist)
            if format == 'time':
                cut = h.pop() if h and h[-1][0] == 'slice' else None
            cs.append(('path %s: stacked first' % (n,), bool(h) and h[0][0] == 'stack'))
            if not h or h[0][0] != 'stack':
                continue
            got = h[0][1]
            idx = [q[0][2] if q and q[0][:2] == ('filter', 'psi1') else None for q in got]
            if o == 2:
                # the paths of increasing scale, exactly
                for i in range(n1):
                    w = b[k[0]] > a[i]
                    cs.append(('path %s: contains first-order path %d exactly for increasing scales' % (n, i),
                               w if i in idx else neg(w)))
                members = [i for i in idx if i is not None]
                cs.append(('path %s: rows in order' % (n,), None not in idx and members == sorted(set(members))))
            cs.append(('path %s: rows' % (n,), eqv(tuple(got), tuple(lead(i) for i in members))))
            cnt = len(members)
            cs.append(('path %s: number of rows' % (n,), format == 'time' or p['n1_max'] == cnt))
            want = (('pad', v['Nf'] - cnt), ('filter', 'psi_fr', g), ('modulus',))
            if mode == 'global':
                want += (('global', 'time'),)
            elif loc and o == 2:
                want += (('filter', 'phi'),)
            # frequency averaging: not repeated for a path already averaged at least as coarsely
            done = floc and xi[g] == 0
            skip = (lF <= jf[g]) if done else False
            avg = (('global', 'freq'),) if fmode == 'global' else (('filter', 'phi_fr'),) if floc else ()
            rest = tuple(h[1:])
            stride = h[-1][2] if crop and h and h[-1][0] == 'crop' else p.get('n1_stride')
            tail = (('crop', cnt, stride),) if crop else ()
            if fmode == 'local':
                cs.append(('path %s: operations in order' % (n,), disj(conj(skip, eqv(rest, want + tail)),
                                                                      conj(neg(skip), eqv(rest, want + avg + tail)))))
            else:
                cs.append(('path %s: operations in order' % (n,), eqv(rest, want + avg + tail)))
            rt, rf = c.res['time'], c.res['freq']
            if mode == 'global':
                cs.append(('path %s: time resolution' % (n,), rt is None))
            else:
                cs.append(('path %s: time resolution' % (n,), rt == (ls if loc or o == 1 else b[k[0]])))
            if fmode == 'global':
                cs.append(('path %s: frequency resolution' % (n,), rf is None))
                cs.append(('path %s: one row' % (n,), stride == cnt))
            else:
                cs.append(('path %s: frequency resolution' % (n,), rf == (lsf if floc else jf[g])))
                cs.append(('path %s: stride is the resolution' % (n,), log2k(stride) == rf))
            if format == 'time':
                cs.append(('path %s: is the slice of its n1' % (n,), cut is not None and (cut[1] * stride) == n[0]))
                if n[0] == 0:
                    # all the multiples of the stride below the number of rows
                    for i in range(cnt):
                        w = (i % stride) == 0
                        cs.append(('path %s: slice %d exists exactly for multiples of the stride' % (n, i),
                                   w if (i,) + n[1:] in seen else neg(w)))
            cs.append(('path %s: order' % (n,), p['order'] == o))
            cs.append(('path %s: spin label' % (n,), p['spin'] == np.sign(xi[g])))
            cs.append(('path %s: frequency filter label' % (n,), tuple(p['n_fr']) == (m,)))
            cs.append(('path %s: frequency scale label' % (n,), conj(len(p['j_fr']) == 1, p['j_fr'][-1] == jf[g])))
            if o == 2:
                cs.append(('path %s: temporal scale label' % (n,), p['j'][-1] == b[k[0]]))
            cs.append(('path %s: real' % (n,), c.real and c.dom == 't'))
        # completeness
        pos = sum(q >= 0 for q in xi)
        z = () if format == 'joint' else (0,)
        cs.append(('first-order paths', all(z + (m,) in seen for m in range(pos))))
        for k in range(n2):
            w = disj(*[b[k] > q for q in a])
            for m in range(len(xi)):
                cs.append(('second-order path (%d,%d) exists exactly if some scale increases' % (k, m),
                           w if z + (k, m) in seen else neg(w)))
        return cs
    explore(r, key, body, names, assume, max_paths=200000, pow2=True, sample=[s0])



def meta(r, n1, n2, nf, mode, fmode, format, out_type, Jmax):
    """metadata against the paths of the transform, for every scale and stride"""
    from .symint import load_ints
    from .casc import makej
    from vk import symarr
    from .c08 import Tag
    key = 'JTFS metadata with %d, %d and %d filters, time %s, frequency %s, %s %s' % (n1, n2, nf, mode, fmode, format, out_type)
    r.bound(key + ': every J, J_fr <= %d, every scale, averaging scale and stride on both axes' % Jmax)
    load_ints()
    T = {'local': None, 'none': 0, 'global': 'global'}
    S = makej('numpy', J=3, J_fr=2, shape=16, Q=2, T=T[mode], F=T[fmode], format=format, out_type=out_type)
    names, assume, s0 = inputs(n1, n2, nf, mode, fmode, Jmax)

    class Sub(type(S)):
        log2_stride = property(lambda self: self._vk['ls'])
        log2_T = property(lambda self: self._vk['lT'])
        log2_stride_fr = property(lambda self: self._vk['lsf'])
        log2_F = property(lambda self: self._vk['lF'])
        stride = property(lambda self: 2 ** self._vk['ls'])
        stride_fr = property(lambda self: 2 ** self._vk['lsf'])
    S.__class__ = Sub

    def tag(x):
        if isinstance(x, SInt):
            y = Tag.__new__(Tag)
            for q in getattr(SInt, '__slots__', ()):
                setattr(y, q, getattr(x, q))
            y.__dict__.update(getattr(x, '__dict__', {}))
            return y
        return x

    def same(x, y):
        return (Tag.tags[x] if x in Tag.tags else x) == y

    class Any:
        def __getitem__(self, l):
            return None

    def body(v):
        from kymatio.scattering1d.core.timefrequency_scattering import joint_timefrequency_scattering, jtfs_average_and_format
        Tag.tags.clear()
        v = {k: (tag(x) if k[0] in 'abf' or k == 'Jf' else x) for k, x in v.items()}
        rec = RecJ()
        _, _, _, filters, ffr = build(v, n1, n2, nf, mode, fmode, rec)
        for bank in (filters[1], filters[2], ffr[1]):
            for i, p in enumerate(bank):
                p['sigma'] = .1 - .01 * i
                p['xi'] = p['xi'] - .001 * i if p['xi'] else 0
        S._vk = v
        dry = lambda p: dict(p, levels=Any())
        S.phi_f, S.psi1_f, S.psi2_f = dry(filters[0]), [dry(p) for p in filters[1]], [dry(p) for p in filters[2]]
        S.filters_fr = (dry(ffr[0]), [dry(p) for p in ffr[1]])
        on, symarr.SYMBOLIC[0] = symarr.SYMBOLIC[0], False          # its tables are ordinary arrays of tags
        try:
            m = S.meta()
            size = S.output_size()
        finally:
            symarr.SYMBOLIC[0] = on
        av = {'local': 'local', 'global': 'global', 'none': False}
        x = Sig(['time'], {'time': 0, 'freq': 0}, {'time': 0, 'freq': 0}, 't', True, ())
        U = joint_timefrequency_scattering(x, rec, filters, v['ls'], mode == 'local', ffr, v['lsf'], fmode == 'local')
        out = list(jtfs_average_and_format(U, rec, filters[0], v['ls'], av[mode], ffr[0], v['lsf'], av[fmode], out_type, format))
        if out_type == 'array' and format == 'joint':
            out = out[1:]
        cs = [('keys are the paths of the transform, in order', [tuple(k) for k in m['key']] == [tuple(p['n']) for p in out]),
              ('output size', size == len(out))]
        for f in ('n', 'n_fr', 'order', 'spin') + tuple(f + e for f in ('xi', 'sigma', 'j') for e in ('', '_fr')):
            cs.append(('metadata has %s for every row' % f, f in m and len(m[f]) == len(out)))
        if not all(c for _, c in cs):
            return cs
        nan = lambda q: isinstance(q, float) and q != q or isinstance(q, np.floating) and np.isnan(q)
        for i, p in enumerate(out):
            n = tuple(p['n'])
            o = p['order']
            w = 'path %s: ' % (n,)
            cs.append((w + 'order', int(m['order'][i]) == o))
            g = p['n_fr'][0] if o else None
            cs.append((w + 'frequency filter', nan(m['n_fr'][i]) if o == 0 else float(m['n_fr'][i]) == g))
            c1, c2 = m['n'][i]
            k1 = k2 = None
            if o == 0:
                cs.append((w + 'no filters', nan(c1) and nan(c2)))
            elif format == 'joint':
                ok = isinstance(c1, range)
                cs.append((w + 'first-order rows', conj(ok, ok and c1.start == 0, ok and c1.stop == p['n1_max'], ok and p['n1_stride'] == c1.step)))
                k2 = n[0] if o == 2 else None
            else:
                k1, k2 = n[0], n[1] if o == 2 else None
                cs.append((w + 'first-order filter', not nan(c1) and not isinstance(c1, range) and c1 == k1))
            if o:
                cs.append((w + 'second-order filter', nan(c2) if k2 is None else c2 == k2))
                cs.append((w + 'spin', m['spin'][i] == p['spin']))
            for f in ('xi', 'sigma', 'j'):
                for q, k in ((0, k1), (1, k2)):
                    cs.append((w + '%s of the filter of order %d' % (f, q + 1), bool(np.isnan(m[f][i, q])) if k is None else
                               same(float(m[f][i, q]), filters[1 + q][k][f])))
                cs.append((w + '%s of the frequency filter' % f, bool(np.isnan(m[f + '_fr'][i])) if not o else
                           same(float(m[f + '_fr'][i]), ffr[1][g][f])))
        return cs
    explore(r, key, body, names, assume, max_paths=200000, pow2=True, sample=[s0])


def metajobs(tier):
    q = tier == 'quick'
    out = []
    for mode in ('local', 'global', 'none'):
        for fmode in ('local', 'global', 'none'):
            sizes = [(2, 1, 1)] + ([(2, 2, 1)] if fmode != 'local' or not q else []) + ([] if q else [(3, 2, 1), (2, 1, 2)])
            for s in sizes:
                for fm in ('joint', 'time'):
                    for ot in ('list', 'array') if fm == 'joint' and mode != 'none' and fmode != 'none' else ('list',):
                        out.append(job('checks.jcore', 'meta', (40 if fmode == 'local' else 10) * s[0] * s[1], n1=s[0], n2=s[1], nf=s[2], mode=mode,
                                       fmode=fmode, format=fm, out_type=ot, Jmax=(4 if fmode == 'local' else 6) if q else 8, limit=800 if q else 3000))
    return out


def jobs(tier):
    q = tier == 'quick'
    out = []
    sizes = [((2, 1, 1), ('joint', 'time')), ((3, 2, 1), ('joint',))] + ([] if q else [((2, 2, 1), ('time',)), ((2, 1, 2), ('time',)), ((3, 2, 2), ('joint',)),
                                                                                      ((3, 2, 1), ('time',)), ((3, 3, 1), ('joint',))])
    for s, formats in sizes:
        for mode in ('local', 'global', 'none'):
            for fmode in ('local', 'global', 'none'):
                for fm in formats:
                    w = 10 if fmode == 'global' or fm == 'joint' else 30
                    for ot in ('list', 'array') if fm == 'joint' and mode != 'none' and fmode != 'none' else ('list',):
                        out.append(job('checks.jcore', 'core', w * s[0], n1=s[0], n2=s[1], nf=s[2], mode=mode, fmode=fmode, format=fm, out_type=ot,
                                       Jmax=8 if q or fm == 'time' else 14, limit=800 if q else 3000))
    return out
