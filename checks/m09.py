"""M09: conversions between lists, vectors, quaternions, angles and transforms keep every number in its place."""
from .linalg import *
from .m07 import A, M, check, vec
from .numeric import *

ASSUMPTIONS = ["the linear algebra library computes what its operations are named after", "inputs have the size the conversion asserts"]


def copied(it, arg):
    """the whole buffer of the argument becomes the result's"""
    t = it.result
    src = I.L_root(mk("var", "arg", 0))
    if t.op == "fn" and t.args[0] == "ctor:std::vector" and len(t.args) >= 3:
        b, e = t.args[1], t.args[2]
        if b.op == "addr" and e.op == "addr" and b.args[0].op == "Lf" and b.args[0].args[1] == "<data>" and e.args[0].op == "Li" and e.args[0].args[0] is b.args[0]:
            if sub(e.args[0].args[1], size(arg)) is not ZERO:
                return "%s numbers are read from an array of %s" % (show(e.args[0].args[1]), show(size(arg)))
            return None
    if t.op == "fn" and t.args[0] == "ctor:Map" and len(t.args) > 2 and t.args[1].op == "addr" and t.args[1].args[0] is src:
        return None if sub(t.args[2], size(arg)) is ZERO else "%s numbers are read from an array of %s" % (show(t.args[2]), show(size(arg)))
    if t.op == "upd" and [k for k, _ in t.args[1:]] == ["<data>"] and t.args[1][1] is arg:
        n = dimsize(t.args[0])
        if n is None or sub(n, size(arg)) is not ZERO:
            return "the result has another size"
        cp = [e for e in it.events if e.kind == "memcpy"]
        if len(cp) != 1 or sub(cp[0].n, scale(size(arg), 8)) is not ZERO:
            return "%s bytes are copied" % (show(cp[0].n) if cp else "no")
        return None
    return "no copy"


def dimsize(t):
    if t.op == "fn" and t.args[0] == "dyn":
        return t.args[1] if t.args[2] is ONE else t.args[2] if t.args[1] is ONE else None
    return None


def whole_vec(F, f, it, n, body, pre=()):
    t = it.result
    b = E.dimbase(t)
    if t.op in ("fold", "mapped", "astore") and dimsize(b) is not None:
        w = same(counts(dimsize(b)), n, list(pre))
        if w:
            return "size: " + w
        if t.op == "mapped" and t.args[2] is ZERO and t.args[1] is t.args[4] and same(counts(t.args[3]), n, list(pre)) is None:
            return same(subst(t.args[5], {t.args[1]: IX}), body, list(pre))
        i = [le(ZERO, IX), le(add(IX, ONE), n)]
        return same(elem(t, IX), body, list(pre) + i)
    return vecsame(t, n, body, pre)


def stores(t):
    """(loops, path, value) of every element store of nested loops, and the initial value; None when it is something else"""
    if t.op == "mapped":
        base, iv, lo, hi, ix, val = t.args
        return [([(iv, lo, hi)], [ix], val)], base
    if t.op != "fold":
        return None
    out = []

    def walk(x, loops, path):
        # x is the value after one round
        while x.op == "fold":
            L, p0, H, ev = x.args
            iv = [s for s in subterms(ev) if s.op == "s" and s.args[0] == "iv" and s.args[2:] == L.args[:3]]
            if len(set(iv)) != 1 or L.args[2] is not ONE:
                return False
            loops = loops + [(iv[0], L.args[0], L.args[1])]
            x = ev
        if x.op == "mapped":
            base, iv, lo, hi, ix, val = x.args
            return leaf(ix, val, loops + [(iv, lo, hi)], path)
        if x.op == "astore":
            return leaf(x.args[1], x.args[2], loops, path)
        return False

    def leaf(ix, val, loops, path):
        if val.op in ("astore", "mapped", "fold") :
            return walk(val, loops, path + [ix])
        out.append((loops, path + [ix], val))
        return True
    return (out, t.args[1]) if walk(t, [], []) else None


def run(ctx):
    ctx.rule("element i of the result is element i of the argument, for every i below the size; rotations are the stated products of rotations about the axes")
    F = Fns(ctx, "geom", "EigenHelpers::")
    a = A(0)
    n3 = eq(size(a), num(3))
    f = F.pick("StdVectorDoubleToEigenVector3d", "vector")
    check(F, f, "elements", "changes the numbers or their order", {sel(a, num(i)): "s" for i in range(3)}, lambda L: vec([L.at(sel(a, num(i))) for i in range(3)]))
    f = F.pick("EigenVector3dToStdVectorDouble", "Matrix")
    it = F.run(f)
    F.ob(f, "elements", next((w for w in [same(counts(size(it.result)), num(3))] + [same(sel(it.result, num(i)), sel(a, num(i))) for i in range(3)] if w), None), "changes the numbers or their order")
    for name, pat in (("StdVectorDoubleToEigenVectorXd", "vector"), ("EigenVectorXdToStdVectorDouble", "Matrix"), ("EigenVectorXToStdVector", "Matrix"), ("StdVectorToEigenVectorX", "vector"),
                      ("::ConvertTo", "Matrix")):
        f = conv(F, ctx) if name == "::ConvertTo" else F.pick(name, pat)
        it = F.run(f)
        w = copied(it, a)
        if w == "no copy":
            w = whole_vec(F, f, it, size(a), sel(a, IX))
        F.ob(f, "elements", w, "changes the numbers, their count or their order")
        F.inbounds(f, it)
    # lists of fixed size vectors and flat vectors
    f = F.pick("VectorEigenVectorToEigenVectorX", "vector")
    it = F.run(f)
    F.ob(f, "elements", flatten(it.result, a, size(a), True), "does not put the vectors one after another")
    for name, pat in (("EigenVectorXToVectorEigenVector", "Matrix"), ("StdVectorXToVectorEigenVector", "vector")):
        f = F.pick(name, pat)
        it = F.run(f)
        F.ob(f, "elements", flatten(it.result, a, fn("idiv", size(a), num(3)), False), "does not cut the vector into consecutive vectors")
    # quaternions
    f = F.pick("StdVectorDoubleToEigenQuaterniond", "vector")
    check(F, f, "elements", "does not take x, y, z, w from the list in this order", {sel(a, num(i)): "s" for i in range(4)}, lambda L: ("Q", [L.at(sel(a, num(i))) for i in range(4)]),
          pre=[eq(size(a), num(4))])
    f = F.pick("EigenQuaterniondToStdVectorDouble", "Quaternion")
    it = F.run(f)
    F.ob(f, "elements", next((w for w in [same(counts(size(it.result)), num(4))] + [same(sel(it.result, num(i)), sel(a, num(i))) for i in range(4)] if w), None), "is not the list x, y, z, w")
    # roll, pitch, yaw
    def rot(L, k, t):
        h = L.sc(t) * const(Fraction(1, 2))
        return ("Q", [L.trig("sin", h) if i == k else Z for i in range(3)] + [L.trig("cos", h)])

    def rpy(L, r, p, y, order=(0, 1, 2)):
        q = {0: rot(L, 0, r), 1: rot(L, 1, p), 2: rot(L, 2, y)}
        v = q[order[0]]
        for k in order[1:]:
            v = L.prod(v, q[k])
        return v
    f = F.pick("QuaternionFromRPY", "double", "double", "double")
    check(F, f, "order", "is not the rotation about x, then y, then z of the rotating frame", {}, lambda L: rpy(L, A(0), A(1), A(2)))
    f = F.pick("QuaternionFromUrdfRPY", "double", "double", "double")
    check(F, f, "order", "is not the rotation about x, then y, then z of the fixed frame", {}, lambda L: rpy(L, A(0), A(1), A(2), (2, 1, 0)))
    f = F.pick("TransformFromRPY", *["double"] * 6)
    tr = lambda L, p, q: ("T", L.rot(q[1]), p)
    check(F, f, "parts", "is not the translation and the rotation given", {}, lambda L: tr(L, [L.at(A(i)) for i in range(3)], rpy(L, A(3), A(4), A(5))))
    f = F.pick("TransformFromRPY", "Matrix<double, 3, 1", "Matrix<double, 3, 1")
    V3 = ("m", 3, 1)
    check(F, f, "parts", "is not the translation and the rotation given", {a: V3, A(1): V3}, lambda L: tr(L, L.col(a), rpy(L, *[sel(A(1), num(i)) for i in range(3)])))
    f = F.pick("TransformFromRPY", "Matrix<double, -1, 1")
    check(F, f, "parts", "is not the translation and the rotation given", {a: ("m", 6, 1)},
          lambda L: tr(L, [L.at(sel(a, num(i))) for i in range(3)], rpy(L, *[sel(a, num(i)) for i in range(3, 6)])))
    # angles of a rotation
    eul = "Eigen::MatrixBase::eulerAngles"

    def angles(t, rots):
        if not (t.op == "fn" and t.args[0] == eul and len(t.args) == 5):
            return "not the library's angles: " + show(t)[:80]
        if [x.args[0] if isc(x) else None for x in t.args[2:]] != [0, 1, 2]:
            return "angles about other axes: " + show(t)[-30:]
        return None if t.args[1] in rots else "angles of " + show(t.args[1])[:60]
    parts = lambda x: [fld(x, k) for k in ("<rotation>", "<linear>")]
    f = F.pick("EulerAnglesFromRotationMatrix", "Matrix")
    F.ob(f, "axes", angles(F.run(f).result, [a]), "does not give the angles about x, y and z")
    f = F.pick("EulerAnglesFromQuaternion", "Quaternion")
    F.ob(f, "axes", angles(F.run(f).result, [fld(a, "<toRotationMatrix>"), fld(a, "<matrix>")]), "does not give the angles about x, y and z")
    f = F.pick("EulerAnglesFromIsometry3d", "Transform")
    F.ob(f, "axes", angles(F.run(f).result, parts(a)), "does not give the angles about x, y and z")
    f = F.pick("TransformToRPY", "Transform")
    t = F.run(f).result
    if t.op == "upd" and len(t.args) == 3 and dict(t.args[1:]).keys() == {"<block,0,0,3,1>", "<block,3,0,3,1>"}:
        t = mk("vec", *[dict(t.args[1:])[k] for k in ("<block,0,0,3,1>", "<block,3,0,3,1>")])
    if t.op == "vec" and len(t.args) == 2:
        w = None if t.args[0] is fld(a, "<translation>") else "the first part is " + show(t.args[0])[:60]
        w = w or angles(t.args[1], parts(a))
    else:
        xs = [sel(t, num(i)) for i in range(6)]
        w = next((show(x)[:60] for i, x in enumerate(xs[:3]) if x is not sel(fld(a, "<translation>"), num(i))), None)
        w = w or next((angles(x.args[0], parts(a)) or (None if x.args[1] is num(i) else "another order of the angles") if x.op == "sel" else show(x)[:60] for i, x in enumerate(xs[3:])), None)
    F.ob(f, "parts", w, "is not the translation followed by the angles about x, y and z")
    ctx.minimum(26)


def conv(F, ctx):
    fs = [f for f in F.prog.funcs if f["q"].split("<")[0].lstrip(":") == "ConvertTo" and f.get("body") is not None]
    ctx.need(len(fs) == 1, "ConvertTo")
    return fs[0]


def flatten(t, a, n, join):
    """join: element 3 i + j of t is element j of a[i], i < n; else element j of t[i] is element 3 i + j of a"""
    if t.op == "seq" and len(t.args) == 1 and t.args[0][0] == "loop" and len(t.args[0][2]) == 1 and t.args[0][2][0][0] == "item" and not join:
        # pushed one by one
        L, x = t.args[0][1], t.args[0][2][0][1]
        iv = [s for s in subterms(x) if s.op == "s" and s.args[0] == "iv"]
        if len(set(iv)) != 1 or L.args[0] is not ZERO or L.args[2] is not ONE:
            return "not understood: " + show(t)[:80]
        w = same(L.args[1], n)
        return w or three(x, a, iv[0])
    r = stores(t)
    if r is None or len(r[0]) != 1:
        return "not understood: " + show(t)[:120]
    (loops, path, val), base = r[0][0], r[1]
    if join:
        d = dimsize(base)
        if d is None or sub(d, scale(n, 3)) is not ZERO:
            return "the result has %s numbers" % (show(d) if d is not None else "?")
    else:
        w = same(counts(size(base)), n)
        if w:
            return "size: " + w
    if any(lo is not ZERO for _, lo, _ in loops) or not loops or sub(loops[0][2], n) is not ZERO:
        return "the loop does not go over every vector"
    i = loops[0][0]
    if len(loops) == 2 and not (isc(loops[1][2]) and loops[1][2].args[0] == 3) or len(loops) > 2:
        return "the loop does not go over the three numbers"
    j = loops[1][0] if len(loops) == 2 else None
    if join:
        if len(path) != 1:
            return "not understood: " + show(t)[:120]
        if j is None:
            p = path[0]
            if not (p.op == "part" and p.args[0] == "segment" and sub(p.args[1], scale(i, 3)) is ZERO and isc(p.args[2]) and p.args[2].args[0] == 3):
                return "a vector goes to " + show(p)[:80]
            return None if val is sel(a, i) else "%s is stored for the vector" % show(val)[:60]
        if sub(path[0], add(scale(i, 3), j)) is not ZERO:
            return "a number goes to place " + show(path[0])[:60]
        return None if val is sel(sel(a, i), j) else "%s is stored" % show(val)[:60]
    if path[0] is not i or len(path) != (1 if j is None else 2) or j is not None and path[1] is not j:
        return "not understood: " + show(t)[:120]
    if j is None:
        return three(val, a, i)
    return None if val is sel(a, add(scale(i, 3), j)) else "%s is stored" % show(val)[:60]


def three(v, a, i):
    """the vector of the three numbers of a from 3 i on"""
    if v.op == "sel" and v.args[0] is a and v.args[1].op == "part":
        p = v.args[1]
        ok = p.args[0] == "segment" and sub(p.args[1], scale(i, 3)) is ZERO and isc(p.args[2]) and p.args[2].args[0] == 3
        return None if ok else "the vector is " + show(v)[:80]
    for k in range(3):
        if sel(v, num(k)) is not sel(a, add(scale(i, 3), num(k))):
            return "number %d is %s" % (k, show(sel(v, num(k)))[:60])
    return None
