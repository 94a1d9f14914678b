"""Equality of symbolic arrays, decided by z3."""
import time
import numpy as np
import z3
from . import poly, engine
from .poly import C, Z, lift, Unsupported
from .engine import Zx, STATS, check


def _flat(a):
    return [z if isinstance(z, Z) else _lift(z) for z in np.asarray(a, dtype=object).reshape(-1)]


def _lift(z):
    if isinstance(z, engine.SBool):
        return poly.ite(z, lift(1), lift(0))
    r = lift(z)
    if r is NotImplemented:
        raise Unsupported('cannot compare %r' % (z,))
    return r


def prove_equal(a, b, timeout_ms=15000, assumptions=(), axioms=False):
    """('proved', None) | ('refuted', (index, model env)) | ('unknown', None)

    First all atoms that are not inputs are treated as free symbols (sound for 'proved'); if that leaves a
    difference the defining axioms of the atoms are added."""
    fa, fb = _flat(a), _flat(b)
    assert len(fa) == len(fb)
    sv = z3.Solver()
    sv.set('timeout', timeout_ms)
    zx = Zx(axioms=axioms)
    bad = []
    for i, (x, y) in enumerate(zip(fa, fb)):
        px, py = zx.parts(x.norm()), zx.parts(y.norm())
        for e in set(px) | set(py):
            bad.append(px.get(e, z3.RealVal(0)) != py.get(e, z3.RealVal(0)))
    if not bad:
        bad = [z3.BoolVal(False)]
    for c in assumptions:
        sv.add(c)
    sv.add(z3.simplify(z3.Or(*bad), som=False) if len(bad) < 20000 else z3.Or(*bad))
    if axioms:
        sv.add(*zx.flush())
    r = check(sv)
    if r == z3.unsat:
        return 'proved', None
    diff = [i for i, (x, y) in enumerate(zip(fa, fb)) if not x.same(y)]
    if r == z3.unknown:
        return 'unknown', (diff[:1], {})
    if not axioms and any(C.atoms[i].kind not in ('var', 'fft', 'fftvec') for i in zx.vars):
        # retry with the defining axioms, on the first few differing elements
        fa2 = [fa[i] for i in diff[:4]]
        fb2 = [fb[i] for i in diff[:4]]
        if fa2:
            s2, d2 = prove_equal(fa2, fb2, timeout_ms, assumptions, axioms=True)
            if s2 == 'proved' and len(diff) > 4:
                return prove_equal([fa[i] for i in diff], [fb[i] for i in diff], timeout_ms * 2, assumptions, True)
            if s2 == 'proved':
                return 'proved', None
            if s2 == 'unknown':
                return 'unknown', (diff[:1], {})
    m = sv.model()
    env = {}
    for i, v in zx.vars.items():
        if C.atoms[i].kind == 'var':
            val = m.eval(v, model_completion=True)
            try:
                env[C.atoms[i].name] = float(val.as_fraction())
            except Exception:
                try:
                    env[C.atoms[i].name] = float(val.approx(20).as_fraction())
                except Exception:
                    pass
    return 'refuted', (diff[:1], env)


def prove_all(conds, timeout_ms=15000, assumptions=(), axioms=True):
    """every SBool/bool in conds is valid"""
    sv = z3.Solver()
    sv.set('timeout', timeout_ms)
    zx = Zx(axioms=axioms)
    neg = []
    for c in conds:
        if isinstance(c, (bool, np.bool_)):
            neg.append(z3.BoolVal(not c))
        else:
            neg.append(z3.Not(c.z3(zx)))
    for c in assumptions:
        sv.add(c.z3(zx) if isinstance(c, engine.SBool) else c)
    sv.add(z3.Or(*neg) if neg else z3.BoolVal(False))
    if axioms:
        sv.add(*zx.flush())
    r = check(sv)
    if r == z3.unsat:
        return 'proved', None
    if r == z3.unknown:
        return 'unknown', None
    m = sv.model()
    env = {}
    for i, v in zx.vars.items():
        if C.atoms[i].kind == 'var':
            try:
                env[C.atoms[i].name] = float(m.eval(v, model_completion=True).as_fraction())
            except Exception:
                pass
    return 'refuted', env
