"""M08: projections, lines, planes, cones and weighted norms and angles follow their definitions."""
from .linalg import *
from .m07 import A, acase, below, check, hat, normfacts, vec
from .numeric import *

ASSUMPTIONS = ["arithmetic is exact (rounding is out of scope)", "no value is NaN", "directions that are normalized are not zero, and the cone's direction has length 1",
               "the linear algebra library computes what its operations are named after"]
NEG = const(-1)


def minus(L, a, b):
    return L.vadd(a, L.scale(b, NEG))


def proj(L, b, v):
    """the part of v along b, not 0"""
    return L.scale(b, L.inner(b, v) * L.inner(b, b).inv())


def lens(t, kinds, of):
    """terms of t that are the length of the vector of(L)"""
    out = []
    for s in subterms(t):
        if s.op == "fn" and s.args[0] in ("norm", "sqrt", "dot") or s.op == "poly":
            L = Lin(kinds)
            try:
                x = L.ev(s)
                if x[0] == "S" and L.eq(x[1] * x[1], L.sqnorm(of(L))):
                    out.append(s)
            except Unknown:
                pass
    return out


def run(ctx):
    ctx.rule("every case of the result is, for vectors of every length, the combination of the arguments and their inner products that the definition gives")
    F = Fns(ctx, "geom", "EigenHelpers::")
    a, b, c = A(0), A(1), A(2)
    VV = {a: "v", b: "v"}
    zero = lambda L: ("0",)
    nz = lambda x: lt(ZERO, power(mk("fn", "norm", x), 2))
    for n in ("VectorProjection", "VectorRejection"):
        fs = F.all(n)
        ctx.need(len(fs) >= 2, n)
        for f in fs:
            rej = n == "VectorRejection"
            full = (lambda L: minus(L, L.ev(b), proj(L, L.ev(a), L.ev(b)))) if rej else (lambda L: proj(L, L.ev(a), L.ev(b)))
            none = (lambda L: L.ev(b)) if rej else zero
            check(F, f, "along the base", "is not the part of the vector %s the base" % ("across" if rej else "along"), VV, full, pre=[nz(a)])
            check(F, f, "zero base", "is not %s for a zero base" % ("the vector" if rej else "zero"), VV, none, pre=[eq(power(mk("fn", "norm", a), 2), ZERO)])
    V3 = ("m", 3, 1)
    for f in F.all("VectorProjectionToPlane"):
        it = F.run(f)
        k = {a: V3, b: V3, c: V3}
        n3 = lambda L: [x[0] for x in L.mmul(hat(L.col(a)), [[y] for y in L.col(b)])]
        bad = None
        for (x,), cs in expand([it.result]):
            if dead(cs, normfacts):
                continue
            L = Lin(k)
            try:
                nv = vec(n3(L))
                sq = L.sqnorm(nv)
                if degenerate(L, cs, sq):
                    continue
                w = L.differ(L.ev(x), minus(L, L.ev(c), proj(L, nv, L.ev(c))))
            except Unknown as e:
                w = "not understood: " + str(e)
            bad = bad or w
        F.ob(f, "plane", bad, "does not remove the part of the vector along the plane's normal")
        F.ob(f, "no plane", None if any(e.kind == "throw" for e in it.events) else "nothing is thrown", "accepts two parallel vectors as a plane")
    ctx.need(F.all("VectorProjectionToPlane"), "VectorProjectionToPlane")
    f = F.pick("DistanceToLine", "Matrix", "Matrix", "Matrix")
    k = {a: "v", b: "v", c: "v"}
    disp = lambda L: L.inner(L.ev(b), minus(L, L.ev(c), L.ev(a))) * L.sqrt(L.sqnorm(L.ev(b))).inv()
    check(F, f, "distance", "is not the distance from the line", k, lambda L: ("S", L.sqrt(L.sqnorm(minus(L, minus(L, L.ev(c), L.ev(a)), proj(L, L.ev(b), minus(L, L.ev(c), L.ev(a))))))),
          get=lambda r: fld(r, "first"))
    check(F, f, "displacement", "is not the displacement along the line", k, lambda L: ("S", disp(L)), get=lambda r: fld(r, "second"))
    # lengths
    f = F.pick("SafeNormal", "Matrix")
    na = mk("fn", "norm", a)
    unit = lambda L: L.scale(L.ev(a), L.sqrt(L.sqnorm(L.ev(a))).inv())
    check(F, f, "length 1", "is not the vector scaled to length 1", VV, unit, pre=[lt(num(Fraction(1, 10 ** 12)), na)])
    check(F, f, "zero", "is not zero for a zero vector", {a: "v"}, lambda L: L.ev(a), pre=[eq(na, ZERO)])
    ctx.need(len(F.all("ClampNorm")) >= 2, "ClampNorm")
    for f in F.all("ClampNorm"):
        check(F, f, "too long", "is not the vector shortened to the limit", {a: "v"}, lambda L: L.scale(unit(L), L.at(b)), pre=[lt(b, na), lt(ZERO, b)])
        check(F, f, "short enough", "changes a vector that is within the limit", {a: "v"}, lambda L: L.ev(a), pre=[le(na, b), lt(ZERO, b)])
    # angles
    ctx.need(len(F.all("AngleDefinedByPoints")) >= 2, "AngleDefinedByPoints")
    for f in F.all("AngleDefinedByPoints"):
        def tgt(L):
            x, y = minus(L, L.ev(a), L.ev(b)), minus(L, L.ev(c), L.ev(b))
            return L.inner(x, y) * (L.sqrt(L.sqnorm(x)) * L.sqrt(L.sqnorm(y))).inv()
        F.ob(f, "angle", acos(F.run(f).result, {a: "v", b: "v", c: "v"}, tgt), "is not the angle at the middle point")
    W = {a: "v", b: "v", c: "v"}
    dot3 = lambda L, x, y, w: L.inner(L.fn(mk("fn", "cwiseProduct", x, w)), L.ev(y))
    f = F.pick("WeightedDotProduct", "Matrix", "Matrix", "Matrix")
    check(F, f, "sum", "is not the sum of weight times product", W, lambda L: ("S", dot3(L, a, b, c)))
    f = F.pick("WeightedSquaredNorm", "Matrix", "Matrix")
    check(F, f, "sum", "is not the sum of weight times square", W, lambda L: ("S", dot3(L, a, a, b)))
    f = F.pick("WeightedNorm", "Matrix", "Matrix")
    check(F, f, "root", "is not the root of the weighted squared norm", W, lambda L: ("S", L.sqrt(dot3(L, a, a, b))))
    cosw = lambda L: dot3(L, a, b, c) * (L.sqrt(dot3(L, a, a, c)) * L.sqrt(dot3(L, b, b, c))).inv()
    f = F.pick("WeightedCosineAngleBetweenVectors", "Matrix", "Matrix", "Matrix")
    F.ob(f, "cosine", clamped(F.run(f).result, W, cosw), "is not the weighted cosine, limited to -1..1")
    f = F.pick("WeightedAngleBetweenVectors", "Matrix", "Matrix", "Matrix")
    F.ob(f, "angle", acos(F.run(f).result, W, cosw), "is not the weighted angle")
    # planes
    H = "EigenHelpers::Hyperplane::"
    me = mk("var", "me")
    o, n = (I.Interp(F.prog).read(I.State(), I.L_f(I.L_root(me), k)) for k in ("plane_origin_", "plane_normal_"))
    runs = {}

    def plane(name, *pats):
        f = F.pick(H + name, *pats)
        it = I.Interp(F.prog)
        it.run(f, this=I.L_root(me), args=[A(i) for i in range(len(pats))])
        ctx.analysed(f)
        return f, it
    K = {a: "v", o: "v", n: "v"}
    full, flat_ = nz(n), eq(power(mk("fn", "norm", n), 2), ZERO)
    rel_ = lambda L: minus(L, L.ev(a), L.ev(o))
    for name, sp in (("GetRawDotProduct", lambda L: ("S", L.inner(rel_(L), L.ev(n)))),
                     ("RejectVectorOntoPlane", lambda L: proj(L, L.ev(n), L.ev(a))),
                     ("GetSquaredDistanceToPlane", lambda L: ("S", L.sqnorm(proj(L, L.ev(n), rel_(L))))),
                     ("GetDistanceToPlane", lambda L: ("S", L.sqrt(L.sqnorm(proj(L, L.ev(n), rel_(L)))))),
                     ("ProjectVectorOntoPlane", lambda L: minus(L, L.ev(a), proj(L, L.ev(n), L.ev(a)))),
                     ("ProjectPointOntoPlane", lambda L: minus(L, L.ev(a), proj(L, L.ev(n), rel_(L))))):
        f, it = plane(name, "Matrix")
        check(F, f, "formula", "does not follow the definition of the plane", K, sp, pre=[full], it=it)
    f, it = plane("GetNormedDotProduct", "Matrix")
    d = sub(a, o)
    nd = [s for s in lens(it.result, K, rel_) if s.op == "fn"]
    ctx.need(nd, "length of the vector from the plane's origin")
    check(F, f, "formula", "is not the cosine of the angle to the plane's normal", K, lambda L: ("S", L.inner(rel_(L), L.ev(n)) * L.sqrt(L.sqnorm(rel_(L))).inv()),
          pre=[lt(num(Fraction(1, 10 ** 12)), s) for s in nd], it=it)
    for name, x in (("GetOrigin", o), ("GetNormal", n), ("GetDimensionality", size(o))):
        f, it = plane(name)
        F.ob(f, "value", same(counts(it.result), counts(x)), "does not give the plane's own value")
    fs = [f for f in F.all(H + "Hyperplane") if len(f["params"]) == 2]
    ctx.need(fs, "Hyperplane constructor")
    f = fs[0]
    it = I.Interp(F.prog)
    st = it.run(f, this=I.L_root(me), args=[a, b])
    ctx.analysed(f)
    v = it.read(it.state, I.L_root(me))
    for k, x in (("plane_origin_", a), ("plane_normal_", b)):
        F.ob(f, k.split("_")[1], same(fld(v, k), x), "does not keep the plane's " + k.split("_")[1])
    # cone
    f = F.pick("ConvertConeToPyramid", "Matrix", "double")
    F.ob(f, "pyramid", cone(F.run(f).result, a, b), "is not the four outward normals of the pyramid inside of the cone")
    ctx.minimum(35)


def degenerate(L, cs, sq):
    """a condition of the case says that sq is not positive"""
    for c in atoms(cs):
        for g, _ in ineq(c):
            try:
                x = L.sc(g)
            except Unknown:
                continue
            if not L.zero(x) and all(not m for m in L.lowest(x).n) and L.isroot(x):
                return True  # a positive constant <= 0: not a case at all
            # g <= 0 where g is sq times something positive
            if pos(L, x, sq):
                return True
    return False


def pos(L, x, sq):
    """x is sq times a quotient of squares"""
    if L.zero(x - sq):
        return True
    try:
        for xs, at in list(L.fns.get("sqrt", ())):
            u = L.at(at)
            if L.zero(x - u) and L.zero(u * u - sq):
                return True
    except Unknown:
        pass
    # normalized factors: x |a|^2 |b|^2 = sq
    for xs, at in list(L.fns.get("sqrt", ())):
        for ys, bt in list(L.fns.get("sqrt", ())):
            u = L.at(at) * L.at(bt)
            if L.zero(x * u * u - sq) or L.zero(x * u - L.sqrt(sq)):
                return True
    return False


def acos(t, kinds, target):
    """t is acos(target)"""
    try:
        for (x,), cs in expand([t]):
            if dead(cs):
                continue
            L = Lin(kinds)
            w = acase(L, L.sc(x), target(L), cs)
            if w:
                return (" and ".join(show(c) for c in cs))[:160] + " => " + w
    except Unknown as e:
        return "not understood: " + str(e)
    return None


def clamped(t, kinds, target):
    """t is target, limited to -1..1"""
    try:
        for (x,), cs in expand([t]):
            if dead(cs):
                continue
            L = Lin(kinds)
            g = target(L)
            hi, lo = below(L, cs, g.neg()), below(L, cs, g)
            want = ONE_ if hi is not None and hi <= -1 else NEG if lo is not None and lo <= -1 else g
            if want is g and (hi is None or hi > 1 or lo is None or lo > 1):
                return "not limited to -1..1"
            if not L.eq(L.sc(x), want):
                return (" and ".join(show(c) for c in cs))[:160] + " => " + L.text(L.sc(x)) + " instead of " + L.text(want)
    except Unknown as e:
        return "not understood: " + str(e)
    return None


FREE = ("cross", "normalized", "norm", "dot", "unitOrthogonal", "tan", "sin", "cos", "acos", "sqrt", "inv", "squaredNorm", "rep", "zero")


def cone(t, d, m):
    """four unit normals whose planes hold neighbouring rays d + tan(acos(m)) p, p = +-p1, +-p2 across d, away from the inside.
    The construction only uses lengths, dot and cross products, so it is judged in the frame d = z, p1 = x"""
    p1 = mk("fn", "unitOrthogonal", d)
    x, z = mk("vec", ONE, ZERO, ZERO), mk("vec", ZERO, ZERO, ONE)
    try:
        for (y,), cs in expand([t]):
            if dead(cs):
                continue
            if size(y) is not num(4):
                return "%s normals" % show(size(y))
            got = [sel(y, num(i)) for i in range(4)]
            for g in got:
                for s in subterms(g):
                    if s.op == "fn" and s.args[0] not in FREE or s.op == "sel" and s.args[0] is d:
                        return "not understood: " + show(s)[:80]
            got = [subst(subst(g, {p1: x}), {d: z}) for g in got]
            L = Lin({})
            tt = L.sc(mk("fn", "tan", mk("fn", "acos", m)))
            want = []
            for sx, sy in ((1, 1), (-1, 1), (-1, -1), (1, -1)):
                w = [tt * const(sx), tt * const(sy), (tt * tt).neg()]
                n = L.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).inv()
                want.append(vec([k * n for k in w]))
            vals = [L.ev(g) for g in got]
            for w in want:
                if sum(L.differ(v, w) is None for v in vals) != 1:
                    return "no normal is " + ", ".join(L.text(r[0]) for r in w[1])
    except Unknown as e:
        return "not understood: " + str(e)
    return None
