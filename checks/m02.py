"""M02: interpolation is straight between its end points; clamping and spreading pick the nearest allowed value."""
from .numeric import *

ASSUMPTIONS = ["arithmetic is exact (rounding is out of scope)", "no value is NaN", "the library's quaternion slerp takes the ratio as its parameter"]
A = lambda i: mk("s", "arg", i)


def clampspec(x, lo, hi):
    return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))


def run(ctx):
    ctx.rule("every case of the result equals (1-t)*first + t*second with t the ratio limited to 0..1, component by component")
    F = Fns(ctx, "math", "EigenHelpers::")
    a, b, r = A(0), A(1), A(2)
    t = clampspec(r, ZERO, ONE)
    lerp = lambda x, y: add(mul(x, sub(ONE, t)), mul(y, t))
    for f in F.all("SafetyCheckUnitInterval"):
        F.ob(f, "limits", same(F.run(f).result, clampspec(a, ZERO, ONE)), "does not limit the ratio to 0..1")
    ctx.need(len(F.all("SafetyCheckUnitInterval")) >= 2, "ratio limits")
    f = F.pick("Interpolate", "double", "double", "double")
    F.ob(f, "straight", same(F.run(f).result, lerp(a, b)), "is not on the straight line at the limited ratio")
    f = F.pick("Interpolate", "pair", "pair", "double")
    for k in ("first", "second"):
        F.ob(f, "straight " + k, same(fld(F.run(f).result, k), lerp(fld(a, k), fld(b, k))), "is not on the straight line at the limited ratio")
    f = F.pick("Interpolate", "vector", "vector", "double")
    it = F.run(f)
    eqs = eq(size(a), size(b))
    F.ob(f, "straight", vecsame(it.result, size(a), lerp(sel(a, IX), sel(b, IX)), [eqs]), "is not on the straight line at the limited ratio in every component")
    F.ob(f, "sizes", vecsame(it.result, ZERO, ZERO, [lnot(eqs)]), "gives values for lists of different sizes")
    F.inbounds(f, it)
    for d in ("2, 1", "3, 1", "-1, 1"):
        f = F.pick("Interpolate", "Matrix<double, " + d, "Matrix<double, " + d, "double")
        F.ob(f, "straight", same(F.run(f).result, lerp(a, b)), "is not on the straight line at the limited ratio")
        if d.startswith("-1"):
            th = [e for e in F.run(f).events if e.kind == "throw"]
            F.ob(f, "sizes", agree(lor(*[land(*e.facts) for e in th]), lnot(eq(size(a), size(b)))), "does not refuse exactly the vectors of different sizes")
    f = F.pick("Interpolate", "Quaternion", "Quaternion", "double")
    F.ob(f, "shortest rotation", slerp(F.run(f).result, a, b, t), "does not rotate from the first to the second at the limited ratio")
    f = F.pick("Interpolate", "Transform", "Transform", "double")
    tr, ro = pose(F.run(f).result)
    F.ob(f, "translation", same(tr, lerp(mk("fn", "trans", a), mk("fn", "trans", b))) if tr is not None else "no translation", "does not move in a straight line")
    q = lambda x: mk("fn", "quat", x)
    F.ob(f, "rotation", slerp(ro, q(a), q(b), t) if ro is not None else "no rotation", "does not rotate from the first to the second at the limited ratio")
    # clamping
    F.ns = "arc_helpers::"
    c, d = A(2), A(3)
    for n in ("ClampValue", "ClampValueAndWarn"):
        ctx.need(F.all(n), n)
        for f in F.all(n):
            F.ob(f, "clamps", same(F.run(f).result, clampspec(a, b, c), [le(b, c)]), "does not give the closest value inside of the limits")
    spread = ite(land(le(c, a), lt(a, d)), d, ite(land(lt(b, a), lt(a, c)), b, a))
    for n in ("SpreadValue", "SpreadValueAndWarn"):
        ctx.need(F.all(n), n)
        for f in F.all(n):
            F.ob(f, "spreads", same(F.run(f).result, spread, [le(b, c), le(c, d)]), "does not move values between the thresholds, and only those, to the threshold on their side of the midpoint")
    ctx.minimum(18)


def slerp(x, qa, qb, t):
    """x is slerp from qa to qb at t; else what is wrong"""
    for (v,), cs in expand([canon(x)]):
        w = unw(v)
        if not (w.op == "fn" and w.args[0] == "slerp"):
            tt = [k for k, z in ((ZERO, qa), (ONE, qb)) if w is z]
            if tt and same(t, tt[0], cs) is None:
                continue
            return "not a slerp: " + show(w)[:200]
        _, s, p, e = w.args
        if not (unw(s) is qa and unw(e) is qb):
            return "slerp between " + show(s)[:80] + " and " + show(e)[:80]
        bad = same(p, t, cs)
        if bad:
            return bad
    return None


def unw(v):
    while v.op == "fn" and v.args[0] in ("toquat", "torot", "normalized"):
        v = v.args[1]
    return v


def pose(t):
    """(translation, rotation) of a transform"""
    t = canon(t)
    if t.op == "fn" and t.args[0] == "mp":
        x, y = t.args[1:3]
        if x.op == "fn" and x.args[0] == "Translation":
            return x.args[1], y
    if t.op == "upd":
        d = dict(t.args[1:])
        return d.get("<translation>"), d.get("<linear>", d.get("<rotation>"))
    return None, None
