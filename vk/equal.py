"""The central obligation: a real function equals its specification for all values of its inputs."""
import numpy as np
import json
from . import poly, symarr, prove, drv as D
from .poly import C, Unsupported, lift
from .symarr import symvar, SymArray, obj
from .drv import ImplError

F64, C128 = np.dtype('float64'), np.dtype('complex128')


class In:
    """a symbolic input: name, shape, complex?"""

    def __init__(self, name, shape, cplx=False):
        self.name, self.shape, self.cplx = name, tuple(shape), cplx


def make_sym(ins, d):
    out = []
    for a in ins:
        if isinstance(a, In):
            dt = (np.dtype('complex64') if d.f.itemsize == 4 else C128) if a.cplx else d.f
            out.append(symvar(a.name, a.shape, dt, a.cplx))
        else:
            out.append(a)
    return out


def values(ins, d, seed, overrides=None, scale=1.0):
    """concrete inputs and the matching variable environment; dyadic values so that the env is exact"""
    rs = np.random.RandomState(seed)
    vals, env = [], {}
    ov = overrides or {}
    for a in ins:
        if not isinstance(a, In):
            vals.append(a)
            continue
        v = np.zeros(a.shape, dtype=C128 if a.cplx else F64)
        for i in np.ndindex(*a.shape):
            s = a.name + '_'.join([''] + [str(k) for k in i])
            if a.cplx:
                re = ov.get(s + 'r', rs.randint(-512, 513) / 256. * scale)
                im = ov.get(s + 'i', rs.randint(-512, 513) / 256. * scale)
                v[i] = re + 1j * im
                env[s + 'r'], env[s + 'i'] = re, im
            else:
                re = ov.get(s, rs.randint(-512, 513) / 256. * scale)
                v[i] = re
                env[s] = re
        vals.append(v.astype(np.result_type(d.f, np.complex64) if a.cplx else d.f))
    return vals, env


def env_ids(env):
    return {i: env[a.name] for i, a in enumerate(C.atoms) if a.kind == 'var' and a.name in env}


def evaluate(arrs, env):
    memo = {}
    ids = env_ids(env)
    out = []
    for a in arrs:
        o = np.asarray(a, dtype=object)
        v = np.zeros(o.shape, dtype=complex)
        for i in np.ndindex(*o.shape):
            z = o[i]
            if type(z).__name__ == 'SBool':
                v[i] = z.evalf(ids, memo)
            else:
                v[i] = poly.evalf(lift(z), ids, memo)
        out.append(v)
    return out


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a).all()):
        return bool(np.array_equal(np.isfinite(a), np.isfinite(b)))
    s = max(1e-3, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * s)


def norm_sk(s):
    if isinstance(s, tuple) and len(s) == 2 and s[0] == 'dict':
        return ('dict', [(norm_key(k), norm_sk(v)) for k, v in s[1]])
    if isinstance(s, tuple) and len(s) == 2 and s[0] == 'seq':
        return ('seq', [norm_sk(v) for v in s[1]])
    if isinstance(s, tuple):
        return ('seq', [norm_sk(v) for v in s])
    if isinstance(s, list):
        return ('seq', [norm_sk(v) for v in s])
    if isinstance(s, np.generic):
        return s.item()
    return s


def norm_key(k):
    if isinstance(k, tuple):
        return tuple(norm_key(x) for x in k)
    if isinstance(k, np.generic):
        return k.item()
    return k


def spec_out(o):
    sk, lv = D.flatten(o, lambda x: isinstance(x, np.ndarray))
    return norm_sk(sk), lv


def check_equal(r, key, impl, spec, ins, backend, kym=True, exact=None, n=None, replay=None, tol=None,
                expect_error=None, seeds=3, compare_structure=True, fallback=True, post=None, memo_reset=True,
                specs_concrete_only=False):
    """impl(*native args) on the real backend must equal spec(*canonical arrays) for all inputs.

    impl  - calls the real kymatio code
    spec  - independent reference on canonical arrays (works on symbolic and on float arrays)
    expect_error - exception types which must be raised instead
    """
    d = D.get(backend)
    tol = tol or d.tol
    exact = (C.fft_mode == 'exact') if exact is None else exact
    if memo_reset:
        poly.reset(n or (8 if exact else 4), 'exact' if exact else 'opaque')
    vals, env = values(ins, d, 1000 + r.seed)
    info = dict(job=r.job, key=key, backend=backend, **(replay or {}))

    def confirm(k, what, over=None):
        """replay on the real code with concrete values; record a violation when it reproduces"""
        tries = [(11 + s, None) for s in range(seeds)]
        if over:
            tries.insert(0, (11, over))
            z = dict(over)
            tries.insert(1, (12, z))
        for seed, ov in tries:
            v, e = values(ins, d, seed, ov)
            vin = [np.array(x) if isinstance(x, np.ndarray) else x for x in v]
            try:
                csk, clv = d.conc(impl, vin, kym)
            except ImplError as ex:
                r.violation(k, '%s; replay on the real code raises %s' % (what, ex),
                            dict(info, values=_ser(v), error=str(ex)))
                return True
            ssk, slv = spec_out(spec(*v))
            if post:
                clv = post(clv)
            bad = None
            if compare_structure and norm_sk(csk) != ssk:
                bad = 'structure %s instead of %s' % (str(norm_sk(csk))[:300], str(ssk)[:300])
            elif len(clv) != len(slv):
                bad = '%d arrays instead of %d' % (len(clv), len(slv))
            else:
                for q, (a, b) in enumerate(zip(clv, slv)):
                    if a.shape != b.shape:
                        bad = 'array %d has shape %s instead of %s' % (q, a.shape, b.shape)
                        break
                    if not close(a, b, tol):
                        i = np.unravel_index(np.argmax(np.abs(np.where(np.isfinite(a), a, 1e300) - b)), a.shape)
                        bad = 'array %d differs at %s: real code %s, definition %s' % (
                            q, tuple(int(t) for t in i), a[i], b[i])
                        break
            if bad:
                r.violation(k, '%s; replay on the real code: %s' % (what, bad), dict(info, values=_ser(v), found=bad))
                return True
        return False

    # ---- encode the real code
    try:
        with r.encoding():
            syms = make_sym(ins, d)
            sk, lv = d.sym(impl, [s.copy() if isinstance(s, SymArray) else s for s in syms], kym)
            if post:
                lv = post(lv)
    except ImplError as ex:
        if expect_error is not None:
            if isinstance(ex.orig, expect_error):
                # confirm on the real code
                try:
                    d.conc(impl, [np.array(x) if isinstance(x, np.ndarray) else x for x in vals], kym)
                except ImplError as e2:
                    if isinstance(e2.orig, expect_error):
                        r.ok(key)
                        r.validated += 1
                        return True
                r.violation(key, 'expected %s is not raised by the real code' % (expect_error,), info)
                return False
            # wrong exception type; does the real code agree?
            try:
                d.conc(impl, [np.array(x) if isinstance(x, np.ndarray) else x for x in vals], kym)
                r.violation(key, 'no error is raised where %s is required' % (expect_error,), dict(info, values=_ser(vals)))
            except ImplError as e2:
                if isinstance(e2.orig, expect_error):
                    r.inconclusive(key, 'symbolic run raised %s, real code %s' % (ex, e2))
                else:
                    r.violation(key, 'raises %s where %s is required' % (e2, expect_error), dict(info, values=_ser(vals)))
            return False
        if not confirm(key, 'the code raises %s' % ex):
            r.inconclusive(key, 'symbolic run raised %s but the real code does not' % ex)
        return False
    except Unsupported as ex:
        if expect_error is not None:
            try:
                d.conc(impl, [np.array(x) if isinstance(x, np.ndarray) else x for x in vals], kym)
            except ImplError as e2:
                if isinstance(e2.orig, expect_error):
                    r.inconclusive(key, 'not encodable: %s' % ex)
                    return False
            r.violation(key, 'expected error is not raised', dict(info, values=_ser(vals)))
            return False
        if fallback and confirm(key, 'not encodable (%s)' % ex):
            return False
        r.inconclusive(key, 'not encodable: %s' % ex)
        return False
    if expect_error is not None:
        try:
            d.conc(impl, [np.array(x) if isinstance(x, np.ndarray) else x for x in vals], kym)
        except ImplError as e2:
            if isinstance(e2.orig, expect_error):
                r.inconclusive(key, 'symbolic run did not raise but real code does')
                return False
        r.violation(key, 'no error is raised where %s is required' % (expect_error,), dict(info, values=_ser(vals)))
        return False
    # ---- specification
    ssk, slv = spec_out(spec(*syms))
    sk = norm_sk(sk)
    if compare_structure and sk != ssk:
        if not confirm(key, 'output structure differs'):
            r.inconclusive(key, 'structure differs symbolically only')
        return False
    if len(lv) != len(slv) or any(tuple(a.shape) != tuple(b.shape) for a, b in zip(lv, slv)):
        if not confirm(key, 'output shapes %s instead of %s' % ([a.shape for a in lv][:6], [b.shape for b in slv][:6])):
            r.inconclusive(key, 'shapes differ symbolically only')
        return False
    # ---- validate the encoding against the real code on one concrete input
    try:
        csk, clv = d.conc(impl, [np.array(x) if isinstance(x, np.ndarray) else x for x in vals], kym)
        if post:
            clv = post(clv)
        ev = evaluate(lv, env)
        good = len(clv) == len(ev) and all(close(a, b, max(tol, 1e-7) * 10) for a, b in zip(clv, ev))
    except ImplError as ex:
        r.violation(key, 'the real code raises %s' % ex, dict(info, values=_ser(vals)))
        return False
    if not good:
        if not confirm(key, 'the real code and its encoding differ'):
            r.inconclusive(key, 'encoding does not reproduce the real run')
        return False
    r.validated += 1
    # ---- the solver decides
    total = 0
    for q, (a, b) in enumerate(zip(lv, slv)):
        st, extra = prove.prove_equal(a, b)
        if st == 'proved':
            total += int(np.asarray(a, dtype=object).size)
            continue
        over = (extra[1] if extra else {}) or None
        if confirm(key, 'solver: output %d differs from the definition (element %s)' % (q, extra and extra[0]), over):
            return False
        if not exact and memo_reset:
            return _retry_exact(r, key, impl, spec, ins, d, kym, tol, compare_structure, post, st)
        r.inconclusive(key, 'solver %s, no concrete difference' % st)
        return False
    r.ok(key, total)
    r.sample(dict(obligation=key, backend=backend, outputs=[list(a.shape) for a in lv][:6],
                  first_output=repr(np.asarray(lv[0], dtype=object).reshape(-1)[0])[:160] if lv and lv[0].size else ''))
    return True


def _retry_exact(r, key, impl, spec, ins, d, kym, tol, compare_structure, post, st):
    """the opaque transform abstraction was too coarse: decide with the exact transform (small sizes only)"""
    size = max([int(np.prod(a.shape)) for a in ins if isinstance(a, In)] or [1])
    if size <= 64:
        for n in (8, 16, 32, 24, 48):
            try:
                poly.reset(n, 'exact')
                syms = make_sym(ins, d)
                sk, lv = d.sym(impl, [s.copy() if isinstance(s, SymArray) else s for s in syms], kym)
                if post:
                    lv = post(lv)
                ssk, slv = spec_out(spec(*syms))
                if len(lv) == len(slv) and all(prove.prove_equal(a, b, 20000)[0] == 'proved' for a, b in zip(lv, slv)):
                    r.ok(key, sum(int(np.asarray(a, dtype=object).size) for a in lv))
                    return True
                break
            except (Unsupported, ImplError):
                continue
    r.inconclusive(key, 'solver %s, no concrete difference' % st)
    return False


def _ser(v):
    out = []
    for x in v:
        if isinstance(x, np.ndarray):
            if x.dtype.kind == 'c':
                out.append(dict(re=x.real.tolist(), im=x.imag.tolist()))
            else:
                out.append(x.tolist())
        else:
            out.append(repr(x))
    return out


def rebuild(sk, leaves):
    it = iter(leaves)

    def go(s):
        if isinstance(s, str) and s == '*':
            return next(it)
        if isinstance(s, tuple) and len(s) == 2 and s[0] == 'dict':
            return {k: go(v) for k, v in s[1]}
        if isinstance(s, tuple) and len(s) == 2 and s[0] == 'seq':
            return [go(v) for v in s[1]]
        if isinstance(s, tuple) and len(s) == 2 and s[0] == 'np':
            return s[1]
        return s
    return go(sk)


def check_rel(r, key, prog, rel, ins, backend, kym=False, n=None, tol=None, seeds=3, exact=False, info=None):
    """A relation between several results of the real code.

    prog(*native args) -> nested structure of native arrays and plain values, all produced by the real code.
    rel(out, *canonical args) -> [(label, a, b)]: arrays that must be equal for all inputs (or plain values).
    Works on symbolic arrays (solver) and on concrete ones (validation, replay)."""
    d = D.get(backend)
    tol = tol or d.tol
    poly.reset(n or (8 if exact else 4), 'exact' if exact else 'opaque')
    vals, env = values(ins, d, 1000 + r.seed)
    info = dict(job=r.job, key=key, backend=backend, **(info or {}))

    def isarr(a):
        return isinstance(a, np.ndarray)

    def conc(v):
        vin = [np.array(x) if isarr(x) else x for x in v]
        sk, lv = d.conc(prog, vin, kym)
        return rel(rebuild(sk, lv), *v), lv

    def wrong(v):
        try:
            rows, _ = conc(v)
        except ImplError as ex:
            return 'the real code raises %s' % ex
        for label, a, b in rows:
            if isarr(a) != isarr(b):
                return '%s: %s instead of %s' % (label, type(a).__name__, type(b).__name__)
            if isarr(a):
                if a.shape != b.shape:
                    return '%s: shape %s instead of %s' % (label, a.shape, b.shape)
                if not close(a, b, tol):
                    i = np.unravel_index(np.argmax(np.abs(np.where(np.isfinite(a), a, 1e300) - b)), a.shape)
                    return '%s: differs at %s: %s instead of %s' % (label, tuple(map(int, i)), a[i], b[i])
            elif not plain_eq(a, b):
                return '%s: %s instead of %s' % (label, str(a)[:200], str(b)[:200])
        return None

    def confirm(what, over=None):
        for seed, ov in ([(11, over)] if over else []) + [(11 + s, None) for s in range(seeds)]:
            v, _ = values(ins, d, seed, ov)
            bad = wrong(v)
            if bad:
                r.violation(key, '%s; replay on the real code: %s' % (what, bad), dict(info, values=_ser(v), found=bad))
                return True
        return False
    try:
        with r.encoding():
            syms = make_sym(ins, d)
            sk, lv = d.sym(prog, [s.copy() if isinstance(s, SymArray) else s for s in syms], kym)
    except ImplError as ex:
        if not confirm('the code raises %s' % ex):
            r.inconclusive(key, 'symbolic run raised %s but the real code does not' % ex)
        return False
    except Unsupported as ex:
        if not confirm('not encodable (%s)' % ex):
            r.inconclusive(key, 'not encodable: %s' % ex)
        return False
    rows = rel(rebuild(sk, lv), *[symarr.obj(s) if isinstance(s, SymArray) else s for s in syms])
    try:
        _, clv = conc(vals)
    except ImplError as ex:
        r.violation(key, 'the real code raises %s' % ex, dict(info, values=_ser(vals)))
        return False
    ev = evaluate(lv, env)
    if not (len(clv) == len(ev) and all(close(a, b, max(tol, 1e-7) * 10) for a, b in zip(clv, ev))):
        if not confirm('the real code and its encoding differ'):
            r.inconclusive(key, 'encoding does not reproduce the real run')
        return False
    r.validated += 1
    total = 0
    for label, a, b in rows:
        if isarr(a) and isarr(b):
            if a.shape == b.shape:
                st, extra = prove.prove_equal(a, b)
                if st == 'proved':
                    total += int(a.size)
                    continue
                over = (extra[1] if extra else {}) or None
            else:
                st, over = 'shapes', None
        else:
            if isarr(a) == isarr(b) and plain_eq(a, b):
                total += 1
                continue
            st, over = 'value', None
        if not confirm('solver: %s' % label, over):
            r.inconclusive(key, '%s: %s, no concrete difference' % (label, st))
        return False
    if not total:
        r.inconclusive(key, 'vacuous')
        return False
    r.ok(key, total)
    r.sample(dict(obligation=key, backend=backend, relations=[l for l, _, _ in rows][:6]))
    return True


def plain_eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(plain_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and plain_eq(v, b[k]) for k, v in a.items())
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b
