"""Symbolic exploration of integer code of /repo: every path over symbolic integers, every condition decided by z3,
every counterexample replayed with plain integers on the real code."""
import os
import sys
import z3
from .common import *
from vk.engine import Explorer, SInt, SBool, SPow2, PathLimit, Infeasible
from vk.poly import Unsupported


class Swap:
    """replaces a function object in every kymatio module that refers to it (stubs for numeric subroutines)"""

    def __init__(self, *pairs):
        self.pairs = pairs

    def __enter__(self):
        self.undo = []
        for k, m in list(sys.modules.items()):
            if m is None or not (k == 'kymatio' or k.startswith('kymatio.')):
                continue
            for nm, v in list(vars(m).items()):
                for old, new in self.pairs:
                    if v is old:
                        self.undo.append((m, nm, v))
                        setattr(m, nm, new)
        return self

    def __exit__(self, *a):
        for m, nm, v in self.undo:
            setattr(m, nm, v)


def explore(r, key, body, names, assume=lambda v: (), refuse=None, max_paths=4000, timeout_ms=20000, bounds=None, sample=None, pow2=False):
    """body(v): v maps names to (symbolic or concrete) integers; returns [(label, condition)].
    assume(v): conditions on the inputs.  Exceptions of the body are violations unless `refuse(v)` (a condition) must hold.
    Every path's conditions are proved; a model of a failing one is replayed with integers."""
    load_ints()
    bad = {}
    counted = [0, 0]
    ex = Explorer(max_paths=max_paths, timeout_ms=timeout_ms, bounds=bounds)
    ex.pow2 = pow2
    unknown = []
    atoms = {n: z3.Int(n) for n in names}

    def concrete(vals):
        """labels failing on the real code with these integers"""
        try:
            with np.errstate(all='ignore'):
                conds = body(dict(vals))
        except Unsupported:
            return []
        except Exception as e:
            if refuse is not None and bool(refuse(vals, e)):
                return []
            return ['raises %s: %s' % (type(e).__name__, str(e)[:120])]
        return [l for l, c in conds if not bool(c)]

    def fail(label, model):
        vals = {n: model.eval(a, model_completion=True).as_long() for n, a in atoms.items()}
        bad.setdefault(label, []).append(vals)

    def run(ex):
        v = {n: SInt(n) for n in names}
        for c in assume(v):
            ex.assume(c)
        if not ex.feasible():
            raise Infeasible()
        try:
            conds = body(v)
        except (Infeasible, PathLimit, Unsupported):
            raise
        except Exception as e:
            import z3 as _z
            if isinstance(e, _z.Z3Exception):
                raise
            if refuse is not None:
                conds = [('refused without reason', refuse(v, e))]
            else:
                conds = [('raises %s' % type(e).__name__, False)]
        conds = [(l, bool(c) if isinstance(c, np.bool_) else c) for l, c in conds]
        # the conjunction first: one query per path when everything holds
        live = [c for _, c in conds if c is not True]
        if len(live) > 1 and not any(c is False for c in live):
            es = [c.z3(ex.zx) if isinstance(c, SBool) else z3.BoolVal(bool(c)) for c in live]
            st, _ = ex.prove(z3.And(*es))
            if st == 'holds':
                counted[0] += len(conds)
                counted[1] += len(conds)
                return True
        for label, c in conds:
            counted[0] += 1
            st, model = ex.prove(c)
            if st == 'fails':
                fail(label, model)
            elif st == 'unknown':
                unknown.append(label)
            else:
                counted[1] += 1
        return True
    with r.encoding(), shim.symbolic(ints=True):
        try:
            ex.run(run)
        except (PathLimit, Unsupported) as e:
            if os.environ.get("VK_TB"): import traceback; traceback.print_exc()
            unknown.append('%s: %s' % (type(e).__name__, e))
    if not ex.complete:
        unknown.append('path limit')
    if 'unknown branch feasibility' in ex.notes:
        unknown.append('unknown branch feasibility')
    if counted[0] == 0 and not bad:
        unknown.append('vacuous: no path reached a condition')
    from vk.engine import STATS
    for label, vs in sorted(bad.items()):
        hit = None
        for vals in vs[:8]:
            f = concrete(vals)
            if f:
                hit = vals, f
                break
        k = '%s: %s' % (key, label)
        if hit:
            r.violation(k, 'with %s the real code gives: %s' % (hit[0], '; '.join(hit[1])[:400]), dict(values=hit[0], failing=hit[1]))
        else:
            r.inconclusive(k, 'counterexample %s does not reproduce' % vs[:1])
    if unknown:
        r.inconclusive(key, '; '.join(sorted(set(map(str, unknown))))[:400])
    if not bad and not unknown:
        # the same conditions on concrete values validate the encoding
        if sample:
            for vals in sample:
                f = concrete(vals)
                if f:
                    r.violation(key + ': ' + f[0], 'with %s' % vals, dict(values=vals, failing=f))
                    return
            r.validated += len(sample)
        r.ok(key, counted[1])


def load_ints():
    shim.load(ints=True)
