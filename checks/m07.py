"""M07: rotations, twists and rigid motions follow the textbook formulas, component by component."""
from .linalg import *
from .numeric import *

ASSUMPTIONS = ["arithmetic is exact (rounding is out of scope)", "no value is NaN", "quaternions passed in have length 1, and the rotation of a transform is a rotation",
               "the linear algebra library computes what its operations are named after"]
A = lambda i: mk("s", "arg", i)


def normfacts(ts):
    """lengths are not negative, and are 0 exactly when their squares are"""
    out = []
    for t in ts:
        for s in subterms(t):
            if s.op == "fn" and s.args[0] in ("norm", "sqrt"):
                out.append(le(ZERO, s))
                out.append(lor(lt(ZERO, s), eq(s, ZERO)))
                out.append(lor(land(lt(ZERO, s), lt(ZERO, power(s, 2))), land(eq(s, ZERO), eq(power(s, 2), ZERO))))
    return list(dict.fromkeys(out))


def check(F, f, key, msg, kinds, spec, pre=(), get=lambda r: r, split=None, it=None, elems=None, unit=("all",), skip=None, result=None):
    """every case of the result equals spec(linear algebra, case number of the split)"""
    it = it or F.run(f)
    bad = None
    try:
        t = get(it.result) if result is None else result
        n = 0
        vals = [t] + ([ite(split, ONE, num(2))] if split is not None else [])
        for (x, *s), cs in expand(vals, list(pre), about=normfacts):
            if dead(cs, normfacts):
                continue
            n += 1
            L = Lin(kinds, elems, unit)
            w = L.differ(L.ev(x), spec(L, s[0] is ONE) if s else spec(L))
            if w:
                bad = (" and ".join(show(c) for c in cs)[:160] + " => " if cs else "") + w
                break
        if not n:
            bad = "no case is possible"
    except Unknown as e:
        bad = "not understood: " + str(e)
    F.ob(f, key, bad, msg)


def M(rows):
    return ("M", rows)


def vec(xs):
    return M([[x] for x in xs])


def hat(x):
    return [[Z, x[2].neg(), x[1]], [x[2], Z, x[0].neg()], [x[1].neg(), x[0], Z]]


def tp(m):
    return [[m[j][i] for j in range(len(m))] for i in range(len(m[0]))]


def run(ctx):
    ctx.rule("every component of the result is the polynomial (or quotient of polynomials) of the arguments' components that the formula gives, modulo |q| = 1, sin^2 + cos^2 = 1 and sqrt(x)^2 = x")
    F = Fns(ctx, "geom", "EigenHelpers::")
    q, v = A(0), A(1)
    V3, M3, M4, V6 = ("m", 3, 1), ("m", 3, 3), ("m", 4, 4), ("m", 6, 1)
    f = F.pick("RotateVector", "Quaternion", "Matrix")
    check(F, f, "rotates", "is not the vector rotated by the quaternion", {q: "q", v: V3}, lambda L: M(L.mmul(L.rot(L.ev(q)[1]), L.ev(v)[1])))
    f = F.pick("RotateVectorReverse", "Quaternion", "Matrix")
    check(F, f, "rotates back", "does not undo the rotation by the quaternion", {q: "q", v: V3}, lambda L: M(L.mmul(tp(L.rot(L.ev(q)[1])), L.ev(v)[1])))
    a = A(0)
    f = F.pick("Skew", "Matrix")
    check(F, f, "cross product", "is not the matrix of the cross product with the vector", {a: V3}, lambda L: M(hat(L.col(a))))
    half = const(Fraction(1, 2))
    f = F.pick("Unskew", "Matrix")
    sk = lambda m: [half * (m[2][1] - m[1][2]), half * (m[0][2] - m[2][0]), half * (m[1][0] - m[0][1])]
    check(F, f, "undoes skew", "is not the vector of the skew part of the matrix", {a: M3}, lambda L: vec(sk(L.mat(L.ev(a)))))
    f = F.pick("TwistHat", "Matrix")

    def thspec(L):
        x = L.col(a)
        h = hat(x[3:])
        return M([h[i] + [x[i]] for i in range(3)] + [[Z] * 4])
    check(F, f, "matrix form", "is not the matrix of the twist", {a: V6}, thspec)
    f = F.pick("TwistUnhat", "Matrix")
    check(F, f, "undoes hat", "is not the twist of the matrix", {a: M4}, lambda L: vec([r[3] for r in L.mat(L.ev(a))[:3]] + sk(L.mat(L.ev(a)))))

    def adj(L):
        _, r, p = L.ev(a)
        pr = L.mmul(hat(p), r)
        return [r[i] + pr[i] for i in range(3)] + [[Z] * 3 + r[i] for i in range(3)]
    ctx.need(len(F.all("AdjointFromTransform")) >= 2, "adjoints")
    for f in F.all("AdjointFromTransform"):
        check(F, f, "adjoint", "is not the adjoint [[R, [p] R], [0, R]] of the transform", {a: "T"}, lambda L: M(adj(L)))
    ctx.need(F.all("TransformTwist"), "twist transform")
    for f in F.all("TransformTwist"):
        check(F, f, "twist in another frame", "is not the adjoint of the transform times the twist", {a: "T", A(1): V6}, lambda L: M(L.mmul(adj(L), L.ev(A(1))[1])))
    # exponentials
    t = A(1)

    def rod(L, m, th):
        s, c = L.trig("sin", th), L.trig("cos", th)
        mm = L.mmul(m, m)
        return [[(ONE_ if i == j else Z) + m[i][j] * s + mm[i][j] * (ONE_ - c) for j in range(3)] for i in range(3)]
    f = F.pick("ExpMatrixExact", "Matrix", "double")
    check(F, f, "Rodrigues", "is not the rotation about the axis by the angle", {a: M3}, lambda L: M(rod(L, L.mat(L.ev(a)), L.sc(t))))
    f = F.pick("ExpTwist", "Matrix", "double")
    it = F.run(f)
    ln = {}
    for s in subterms(it.result):
        if s.op == "fn" and s.args[0] in ("norm", "sqrt"):
            L = Lin({a: V6})
            try:
                x = L.sc(s)
                w = [L.col(a)[i] for i in (3, 4, 5)]
                if L.eq(x * x, w[0] * w[0] + w[1] * w[1] + w[2] * w[2]):
                    ln[s] = True
            except Unknown:
                pass
    ctx.need(ln, "length of the rotation part")
    lens = sorted(ln, key=lambda s: s.id)
    big = land(*[le(numstr("1e-100"), s) for s in lens])
    zero = land(*[eq(s, ZERO) for s in lens])

    def screw(L):
        x = L.col(a)
        w, p = x[3:], x[:3]
        n = L.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2])
        w, p, th = [y * n.inv() for y in w], [y * n.inv() for y in p], L.sc(t) * n
        r = rod(L, hat(w), th)
        wv = [y[0] for y in L.mmul(hat(w), [[y] for y in p])]
        wp = w[0] * p[0] + w[1] * p[1] + w[2] * p[2]
        d = [wv[i] - sum((r[i][j] * wv[j] for j in (1, 2)), r[i][0] * wv[0]) + w[i] * wp * th for i in range(3)]
        return ("T", r, d)

    def slide(L):
        return ("T", [[ONE_ if i == j else Z for j in range(3)] for i in range(3)], [y * L.sc(t) for y in L.col(a)[:3]])
    check(F, f, "screw motion", "is not the screw motion along the twist for the given time", {a: V6}, screw, pre=[big])
    check(F, f, "straight motion", "is not a straight motion when the twist does not rotate", {a: V6}, slide, pre=[zero])
    # lists of points through a transform
    ctx.need(F.all("TransformData"), "TransformData")
    for f in F.all("TransformData"):
        it = F.run(f)
        el = sel(A(1), IX)
        x = elem(it.result, IX)
        F.ob(f, "count", same(counts(size(it.result)), size(A(1)), [], nofacts), "does not give one point for each point")
        check(F, f, "points", "is not the transform times the point at each place", {a: "T", el: V3}, lambda L: L.prod(L.ev(a), L.ev(el)), pre=[le(ZERO, IX), lt(IX, size(A(1)), True)], result=x)
        F.inbounds(f, it)
    # distances
    for d in (2, 3):
        f = F.pick("Distance", "Matrix<double, %d, 1" % d, "Matrix<double, %d, 1" % d)
        check(F, f, "Euclidean", "is not the distance of the points", {a: ("m", d, 1), A(1): ("m", d, 1)}, lambda L: ("S", L.sqrt(L.sqnorm(L.vadd(L.ev(a), L.scale(L.ev(A(1)), const(-1)))))))
        f = F.pick("SquaredDistance", "Matrix<double, %d, 1" % d, "Matrix<double, %d, 1" % d)
        check(F, f, "Euclidean", "is not the squared distance of the points", {a: ("m", d, 1), A(1): ("m", d, 1)}, lambda L: ("S", L.sqnorm(L.vadd(L.ev(a), L.scale(L.ev(A(1)), const(-1))))))
    f = F.pick("Distance", "Matrix<double, -1, 1", "Matrix<double, -1, 1")
    check(F, f, "Euclidean", "is not the distance of the points", {a: "v", A(1): "v"}, lambda L: ("S", L.sqrt(L.sqnorm(L.vadd(L.ev(a), L.scale(L.ev(A(1)), const(-1)))))))
    f = F.pick("Distance", "Quaternion", "Quaternion")
    F.ob(f, "angle", qangle(F.run(f).result, a, A(1)), "is not the smallest angle between the rotations")
    f = F.pick("Distance", "Matrix<double, 3, 3", "Matrix<double, 3, 3")
    F.ob(f, "angle", mangle(F.run(f).result, a, A(1)), "is not the angle between the rotations")
    f = F.pick("Distance", "Transform", "Transform", "double")
    F.ob(f, "mixture", pangle(F.run(f).result, a, A(1), A(2)), "is not the given mixture of distance and angle")
    ctx.minimum(23)


def below(L, cs, p):
    """a number k such that a condition of the case says p <= k (the least one)"""
    best = None
    for c in atoms(cs):
        for g, _ in ineq(c):
            try:
                x = L.sc(g)
            except Unknown:
                continue
            X, P, D = L.reduce(pmul(x.n, p.d)), L.reduce(pmul(p.n, x.d)), L.reduce(pmul(x.d, p.d))
            for m, k in P.items():
                if m not in D and X.get(m):
                    r = k / X[m]
                    z = padd({q: v * r for q, v in X.items()}, P, -1)
                    q = next(iter(D))
                    v = z.get(q, Fraction(0)) / D[q]
                    if r > 0 and not padd(z, {u: w * v for u, w in D.items()}, -1):
                        best = -v if best is None else min(best, -v)
                    break
    return best


def near(L, cs, d):
    """|d| is within 1e-12 of 1"""
    for p in (d, d.neg()):
        k = below(L, cs, p)
        if k is not None and k <= -1 + Fraction(1, 10 ** 12):
            return True
    return False


def acase(L, v, target, cs):
    """the number v is acos(target), or what a cosine outside of -1..1 is clamped to; else what is wrong"""
    hi, lo = below(L, cs, target.neg()), below(L, cs, target)
    if hi is not None and hi <= -1:
        want = ONE_
    elif lo is not None and lo <= -1:
        want = const(-1)
    else:
        want = target
    if want is ONE_ and not L.reduce(v.n):
        return None
    for xs, at in L.fns.get("acos", ()):
        if L.eq(v, L.at(at)):
            return None if L.eq(xs[0], want) else "acos(%s) instead of acos(%s)" % (L.text(xs[0]), L.text(want))
    return L.text(v) + " instead of acos(%s)" % L.text(want)


def nonneg(L, cs, y):
    k = below(L, cs, y.neg())
    return k is not None and k <= 0


def angle(L, v, p, q, cs):
    """v is the smallest angle between the rotations p and q: acos(2 <p, q>^2 - 1); 0 may stand for it when |<p, q>| is within 1e-12 of 1"""
    d = p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
    if not L.reduce(v.n) and near(L, cs, d):
        return None
    for xs, at in L.fns.get("acos", ()):
        # twice the angle of the half
        if L.eq(v, const(2) * L.at(at)) and any(L.eq(xs[0], y) and nonneg(L, cs, y) for y in (d, d.neg())):
            return None
    return acase(L, v, const(2) * d * d - ONE_, cs)


def qangle(t, a, b):
    try:
        for (x,), cs in expand([t]):
            if dead(cs):
                continue
            L = Lin({a: "q", b: "q"})
            w = angle(L, L.sc(x), L.ev(a)[1], L.ev(b)[1], cs)
            if w:
                return (" and ".join(show(c) for c in cs))[:160] + " => " + w
    except Unknown as e:
        return "not understood: " + str(e)
    return None


def pangle(t, a, b, r):
    """(1 - r) times the distance of the translations plus r times the angle of the rotations"""
    try:
        for (x,), cs in expand([t]):
            if dead(cs):
                continue
            kinds = {a: "T", b: "T"}
            for s in subterms(t):
                if s.op == "fn" and s.args[0] == "toquat" or s.op == "fn" and s.args[0] == "quat" and len(s.args) == 2:
                    kinds[s] = "q"
            ta, tb = (mk("fn", "toquat", fld(y, "<rotation>")) for y in (a, b))
            for y, ty in ((a, ta), (b, tb)):
                lin = mk("fn", "toquat", fld(y, "<linear>"))
                x, cs = subst(x, {lin: ty}), [subst(c, {lin: ty}) for c in cs]
                kinds[ty] = "q"
            L = Lin(kinds)
            d = L.sqrt(L.sqnorm(L.vadd(vec(L.ev(a)[2]), L.scale(vec(L.ev(b)[2]), const(-1)))))
            k = L.at(r)
            w = angle(L, (L.sc(x) - d * (ONE_ - k)) * k.inv(), L.ev(ta)[1], L.ev(tb)[1], cs)
            if w:
                return (" and ".join(show(c) for c in cs))[:160] + " => " + w
    except Unknown as e:
        return "not understood: " + str(e)
    return None


def mangle(t, a, b):
    try:
        for (x,), cs in expand([t]):
            if dead(cs):
                continue
            L = Lin({a: ("m", 3, 3), b: ("m", 3, 3)})
            m = L.mmul(L.mat(L.ev(a)), tp(L.mat(L.ev(b))))
            w = acase(L, L.sc(x), (m[0][0] + m[1][1] + m[2][2] - ONE_) * const(Fraction(1, 2)), cs)
            if w:
                return (" and ".join(show(c) for c in cs))[:160] + " => " + w
    except Unknown as e:
        return "not understood: " + str(e)
    return None
