"""Path exploration of real code over symbolic strings, booleans, integers and reals; conditions are decided by z3 on every
path and counterexamples replayed on the real code with plain values."""
import os
from fractions import Fraction
from .symint import *
from vk.sstr import SStr, strvar, printable, text, decode, sb
from vk import engine as E


class Str:
    def __init__(self, cap):
        self.cap = cap


class Int:
    pass


class Bool:
    pass


class Real:
    pass


def explore_free(r, key, body, vars, assume=lambda v: (), samples=(), max_paths=3000, timeout_ms=20000, ints=False, guard=None, arrays=True, seconds=100):
    """body(v) -> [(label, condition)]; a raised exception is a violation (catch expected ones in the body)"""
    bad, unknown, counted = {}, [], [0]
    names = {n: z3.String(n) if isinstance(k, Str) else z3.Int(n) if isinstance(k, Int) else z3.Bool(n) if isinstance(k, Bool) else None
             for n, k in vars.items()}
    shim.load(ints=ints)

    def concrete(vals):
        try:
            with np.errstate(all='ignore'):
                if guard:
                    with guard():
                        return [l for l, c in body(dict(vals)) if not bool(c)]
                return [l for l, c in body(dict(vals)) if not bool(c)]
        except Unsupported:
            return []
        except Exception as e:
            return ['raises %s: %s' % (type(e).__name__, str(e)[:120])]

    def plainvals(m, ex):
        out = {}
        for n, k in vars.items():
            if isinstance(k, Str):
                out[n] = text(m.eval(names[n], model_completion=True))
            elif isinstance(k, Int):
                out[n] = m.eval(names[n], model_completion=True).as_long()
            elif isinstance(k, Bool):
                out[n] = z3.is_true(m.eval(names[n], model_completion=True))
            else:
                i = atoms[n]
                q = m.eval(ex.zx.vars[i], model_completion=True) if i in ex.zx.vars else None
                if q is None:
                    out[n] = Fraction(0)
                elif z3.is_rational_value(q):
                    out[n] = Fraction(q.numerator_as_long(), q.denominator_as_long())
                else:
                    q = q.approx(30)
                    out[n] = Fraction(q.numerator_as_long(), q.denominator_as_long())
        return out
    atoms = {}

    def run(ex):
        poly.reset(4, 'opaque')
        v = {}
        for n, k in vars.items():
            if isinstance(k, Str):
                ex.solver.add(printable(names[n], k.cap))
                v[n] = strvar(n, k.cap)
            elif isinstance(k, Int):
                v[n] = SInt(n)
            elif isinstance(k, Bool):
                v[n] = SBool(names[n])
            else:
                v[n] = poly.var(n)
                atoms[n] = next(i for i, a in enumerate(C.atoms) if a.kind == 'var' and a.name == n)
        for c in assume(v):
            ex.assume(c)
        if not ex.feasible():
            raise Infeasible()
        try:
            if guard:
                with guard():
                    conds = body(v)
            else:
                conds = body(v)
        except (Infeasible, PathLimit, Unsupported):
            raise
        except z3.Z3Exception:
            raise
        except Exception as e:
            if os.environ.get('VK_RAISE'):
                raise
            conds = [('raises %s' % type(e).__name__, False)]
        conds = [(l, bool(c) if isinstance(c, np.bool_) else c) for l, c in conds]
        live = [c for _, c in conds if c is not True]
        if len(live) > 2 and all(isinstance(c, SBool) for c in live):
            # the conjunction first: one query per path when everything holds
            if ex.prove(z3.And(*[c.z3(ex.zx) for c in live]))[0] == 'holds':
                counted[0] += len(conds)
                return True
        for label, c in conds:
            counted[0] += 1
            st, m = ex.prove(c)
            if st == 'fails':
                bad.setdefault(label, []).append(plainvals(m, ex))
            elif st == 'unknown':
                unknown.append(label)
        return True
    ex = Explorer(max_paths=max_paths, timeout_ms=timeout_ms, seconds=seconds)
    with r.encoding(), (shim.symbolic(ints=ints) if arrays else shim.concrete()):
        try:
            ex.run(run)
        except (PathLimit, Unsupported) as e:
            unknown.append('%s: %s' % (type(e).__name__, e))
    if not ex.complete:
        unknown.append('path limit')
    if 'unknown branch feasibility' in ex.notes:
        unknown.append('unknown branch feasibility')
    if not counted[0] and not bad:
        unknown.append('vacuous')
    any_hit = False
    for label, vs in sorted(bad.items()):
        hit = None
        for vals in vs[:8]:
            for conv in (lambda x: x, lambda x: float(x) if isinstance(x, Fraction) else x):
                w = {k: conv(x) for k, x in vals.items()}
                f = concrete(w)
                if f:
                    hit = w, f
                    break
            if hit:
                break
        k = '%s: %s' % (key, label)
        if hit:
            any_hit = True
            sh = {n: str(x) if isinstance(x, Fraction) else x for n, x in hit[0].items()}
            r.violation(k, 'with %s the real code gives: %s' % (sh, '; '.join(hit[1])[:400]), dict(values=sh, failing=hit[1]))
        else:
            r.inconclusive(k, 'counterexample %s does not reproduce' % str(vs[:1])[:200])
    if not any_hit:
        for vals in samples:            # validates the encoding; with an undecided path, still looks for a difference
            f = concrete(vals)
            if f:
                r.violation(key + ': ' + f[0], 'with %s' % vals, dict(values=repr(vals), failing=f))
                return
            r.validated += 1
    if unknown:
        r.inconclusive(key, '; '.join(sorted(set(map(str, unknown))))[:400])
    if not bad and not unknown:
        r.ok(key, counted[0])
        r.sample(dict(obligation=key, paths=len(ex.trace) if False else counted[0]))
