"""M06: element-wise arithmetic, sums, norms and distances are what they say, for every length."""
from engine import eigen as E
from .numeric import *

ASSUMPTIONS = ["arithmetic is exact (rounding is out of scope)", "no value is NaN", "matrix library operations (norm, squaredNorm, colwise, minCoeff) do what they are documented to do"]
A = lambda i: mk("s", "arg", i)
tabs = lambda x: fn("max", x, neg(x))
norm = lambda v: fn("norm", E.signless(v))
sqnorm = lambda v: power(norm(v), 2)
sqrt = lambda x: fn("sqrt", x)


def run(ctx):
    ctx.rule("every element of the result equals the operation applied to the elements at the same position; every sum, norm and distance equals its definition")
    F = Fns(ctx, "math", "EigenHelpers::")
    elementwise(F)
    scalars(F)
    points(F)
    sets(F)
    ctx.minimum(45)


OPS = {"Add": add, "Sub": sub, "Multiply": mul, "Divide": lambda x, y: mul(x, inv(y))}


def elementwise(F):
    a, b = A(0), A(1)
    eqs = eq(size(a), size(b))
    f = F.pick("Abs", "pair")
    for k in ("first", "second"):
        F.ob(f, k, same(fld(F.run(f).result, k), tabs(fld(a, k))), "is not the absolute value")
    f = F.pick("Abs", "vector")
    F.ob(f, "elements", vecsame(F.run(f).result, size(a), tabs(sel(a, IX))), "is not the absolute value of every element")
    F.inbounds(f, F.run(f))
    for n, op in OPS.items():
        for pats, x, y in ((("pair", "double"), lambda k: fld(a, k), lambda k: b), (("pair", "pair"), lambda k: fld(a, k), lambda k: fld(b, k))):
            if n in ("Add", "Sub") and pats[1] == "double":
                continue
            fs = [f for f in F.all(n) if len(f["params"]) == 2 and "pair" in f["params"][0]["t"] and ("pair" in f["params"][1]["t"]) == (pats[1] == "pair")]
            F.ctx.need(fs, "%s(%s)" % (n, ", ".join(pats)))
            for k in ("first", "second"):
                F.ob(fs[0], k, same(fld(F.run(fs[0]).result, k), op(x(k), y(k))), "does not combine the %s elements" % k)
        fs = [f for f in F.all(n) if len(f["params"]) == 2 and "vector" in f["params"][0]["t"]]
        sc, ve = [f for f in fs if "vector" not in f["params"][1]["t"]], [f for f in fs if "vector" in f["params"][1]["t"]]
        F.ctx.need(sc and ve, n + " of lists")
        F.ob(sc[0], "elements", vecsame(F.run(sc[0]).result, size(a), op(sel(a, IX), b)), "does not combine every element with the number")
        F.inbounds(sc[0], F.run(sc[0]))
        r = F.run(ve[0]).result
        F.ob(ve[0], "elements", vecsame(r, size(a), op(sel(a, IX), sel(b, IX)), [eqs]), "does not combine the elements at the same position")
        F.ob(ve[0], "sizes", vecsame(r, ZERO, ZERO, [lnot(eqs)]), "gives values for lists of different sizes")
        F.inbounds(ve[0], F.run(ve[0]))


def scalars(F):
    a, b, c = A(0), A(1), A(2)
    eqs = eq(size(a), size(b))
    tot = lambda body, n=size(a): total(n, body)
    d = sub(sel(a, IX), sel(b, IX))
    chk = lambda f, spec, msg, pre=(), key="value": F.ob(f, key, same(sums(F.run(f).result), spec, pre), msg)
    for n, spec in (("Sum", tot(sel(a, IX))), ("SquaredNorm", tot(mul(sel(a, IX), sel(a, IX)))), ("Norm", sqrt(tot(mul(sel(a, IX), sel(a, IX)))))):
        f = F.pick(n, "vector")
        chk(f, spec, "is not the sum over all elements" if n == "Sum" else "is not the norm over all elements")
        F.inbounds(f, F.run(f))
    for n, g in (("SquaredDistance", lambda x: x), ("Distance", sqrt)):
        f = F.pick(n, "std::vector", "std::vector")
        chk(f, g(tot(mul(d, d))), "is not the Euclidean distance", [eqs])
        r = F.run(f).result
        bad = next((show(v) for (v,), cs in expand([r], [lnot(eqs)]) if not infinite(v)), None)
        F.ob(f, "sizes", bad, "gives a finite distance for points of different sizes")
        F.inbounds(f, F.run(f))
    for dim in (2, 3):
        spec = ZERO
        for i in range(dim):
            e = sub(sel(a, num(i)), sel(b, num(i)))
            spec = add(spec, mul(e, e))
        t = "Matrix<double, %d, 1" % dim
        for n, g, h in (("SquaredDistance", lambda x: x, sqnorm), ("Distance", sqrt, norm)):
            f = F.pick(n, t, t)
            r = F.run(f).result
            w = same(r, g(spec)) and same(r, h(sub(a, b)))
            F.ob(f, "value", w, "is not the Euclidean distance")
    for n, g in (("SquaredDistance", sqnorm), ("Distance", norm)):
        f = F.pick(n, "Matrix<double, -1, 1", "Matrix<double, -1, 1")
        chk(f, g(sub(a, b)), "is not the Euclidean distance")
    # closeness
    f = F.pick("CloseEnough", "double", "double", "double")
    close = lambda x, y, t: le(tabs(sub(x, y)), tabs(t))
    F.ob(f, "value", agree(F.run(f).result, close(a, b, c)), "is not true exactly for values no further apart than the threshold")
    for dim in (2, 3):
        f = F.pick("CloseEnough", "Matrix<double, %d, 1" % dim, "Matrix<double, %d, 1" % dim, "double")
        F.ob(f, "value", agree(F.run(f).result, land(*[close(sel(a, num(i)), sel(b, num(i)), c) for i in range(dim)])), "is not true exactly for vectors that are close in every component")
    f = F.pick("CloseEnough", "std::vector<double", "std::vector<double", "double")
    F.ob(f, "value", listclose(tobool(F.run(f).result), eqs, size(a), lambda i: close(sel(a, i), sel(b, i), c)), "is not true exactly for lists of one size that are close in every element")
    F.inbounds(f, F.run(f))


def listclose(r, eqs, n, body):
    """r is: sizes equal and no element with not body"""
    for (v,), cs in expand([ite(r, ONE, ZERO)]) if r.op == "ite" else [([r], [])]:
        parts = conj(v)
        if not any(p is eqs or holds([eqs], p) and holds([p], eqs) for p in parts):
            return "the sizes are not compared: " + show(r)[:200]
        rest = [p for p in parts if p is not eqs]
        x = rest[0] if len(rest) == 1 else v
        while x.op in ("not", "b"):
            x = x.args[0]
        if x.op != "exists" or rest[0].op != "not":
            return "not every element is compared: " + show(r)[:300]
        L, c = x.args
        iv = [x for x in subterms(c) if x.op == "s" and x.args[0] == "iv"]
        if not (L.args[0] is ZERO and L.args[1] in (n,) or holds([eqs], eq(L.args[1], n)) and L.args[0] is ZERO):
            return "not every element is compared: " + show(L)
        w = agree(subst(c, {x: IX for x in iv}), lnot(body(IX)), [eqs])
        if w:
            return w
    return None


def infinite(t):
    return t.op in ("lit", "c", "str") and "inf" in show(t) or "inf" in show(t) and t.op != "poly" and len(show(t)) < 8


def points(F):
    """distances along a list of points"""
    a, b = A(0), A(1)
    n = size(a)
    for pats, step in ((("std::vector", "function"), lambda i, j: mk("fn", "()", b, i, j)), (("std::vector<Eigen",), lambda i, j: norm(sub(j, i)))):
        f = F.pick("CalculateTotalDistance", *pats)
        it = F.run(f)
        spec = total(sub(n, ONE), step(sel(a, IX), sel(a, add(IX, ONE))))
        F.ob(f, "value", same(sums(it.result), spec, [le(ZERO, n, True)]), "is not the sum of the distances between consecutive points")
        F.inbounds(f, it, [le(ZERO, n, True)])
    leg = lambda i: norm(sub(sel(a, i), sel(a, sub(i, ONE))))
    f = F.pick("CalculateIndividualDistances", "std::vector<Eigen")
    F.ob(f, "elements", legs(F.run(f), n, leg, False), "does not give each point's distance to the point before it (0 for the first)")
    F.inbounds(f, F.run(f))
    f = F.pick("CalculateCumulativeDistances", "std::vector<Eigen")
    F.ob(f, "elements", legs(F.run(f), n, leg, True), "does not give each point's distance along the points (0 for the first)")
    F.inbounds(f, F.run(f))


def legs(it, n, leg, cumulative):
    got = False
    for (v,), cs in expand([it.result], [le(ZERO, n, True)]):
        if dead(cs):
            continue
        w = same(counts(size(v)), n, cs)
        if w:
            return "as many distances as points: " + w
        if known(cs, [le(n, ZERO)]):
            continue
        got = True
        if v.op == "seq":
            w = grown(it, v, n, leg, cumulative)
            if w:
                return w
            continue
        first = sel(v.args[1] if v.op == "fold" else v.args[0], ZERO) if v.op in ("fold", "mapped") else None
        if first not in (ZERO, mk("fn", "zero"), mk("zero")):
            return "the first distance is not 0: " + show(v)[:200]
        if v.op == "mapped" and not cumulative:
            base, iv, lo, hi, idx, val = v.args
            k = sub(idx, iv)
            if not (isc(k) and add(lo, k) is ONE and add(hi, k) is n and isleg(val, leg(idx))):
                return show(v)[:300]
        elif v.op == "mapped":
            base, iv, lo, hi, idx, val = v.args
            k = sub(idx, iv)
            s = sums(val)
            # a running total kept besides the list
            ok = False
            for L, info in it.loopinfo.items():
                for H, (p0, ev, key) in info.get("carried", {}).items():
                    if ev is val and p0 is ZERO and isleg(sub(ev, H), leg(idx)):
                        ok = True
            if not (ok and isc(k) and add(lo, k) is ONE and add(hi, k) is n):
                return show(v)[:300]
        elif v.op == "fold" and v.args[0].args[0] != "w":
            L, p0, H, ev = v.args
            lo, hi, step = L.args[:3]
            if not (step is ONE and ev.op == "astore" and ev.args[0] is H):
                return show(v)[:300]
            idx, val = ev.args[1:]
            iv = it.loopinfo[L]["iv"]
            k = sub(idx, iv)
            if not (isc(k) and add(lo, k) is ONE and add(hi, k) is n):
                return "not every point gets its distance: " + show(L)[:200]
            if cumulative:
                prev = [sel(H, sub(idx, ONE))] + [h for h, (q0, e, key) in it.loopinfo[L]["carried"].items() if q0 is ZERO and e is val]
            else:
                prev = [ZERO]
            if not any(isleg(sub(val, p), leg(idx)) for p in prev):
                return show(val)[:300]
        else:
            return show(v)[:300]
    return None if got else "no distances"


def isleg(d, leg):
    return norms(d) is norms(leg) or comps(d, 3) is comps(leg, 3)


def grown(it, v, n, leg, cumulative):
    """the list grows by one distance per point"""
    ps = v.args
    if len(ps) != 2 or ps[0][0] != "item" or ps[0][1] is not ZERO or ps[1][0] != "loop" or len(ps[1][2]) != 1 or ps[1][2][0][0] != "item":
        return show(v)[:300]
    L, val = ps[1][1], ps[1][2][0][1]
    iv = it.loopinfo[L]["iv"] if L in it.loopinfo else None
    if iv is None or sub(sub(L.args[1], L.args[0]), sub(n, ONE)) is not ZERO:
        return show(L)
    idx = add(iv, sub(ONE, L.args[0]))
    prev = [ZERO] if not cumulative else [h for h, (q0, e, key) in it.loopinfo[L]["carried"].items() if q0 is ZERO and e is val]
    return None if any(isleg(sub(val, p), leg(idx)) for p in prev) else show(val)[:300]


# ------------------------------------------------------------------ sets of points held in the columns of a matrix
def col(s, j):
    return sel(s, mk("part", "col", j))


def at(t, j):
    """element j of a vector with one element per column"""
    if t.op == "ite":
        return ite(t.args[0], at(t.args[1], j), at(t.args[2], j))
    if t.op == "fn" and t.args[0] == "cwiseSqrt":
        return sqrt(at(t.args[1], j))
    if t.op == "mapped":
        base, iv, lo, hi, idx, v = t.args
        if idx is iv and lo is ZERO:
            return subst(v, {iv: j})
    m = {}
    for s in subterms(t):
        if s.op == "fn" and s.args[0] == "norm" and any(y.op == "fn" and y.args[0] == "colwise" for y in subterms(s)):
            x = s.args[1]
            if x.op == "fn" and x.args[0] == "colwise":
                x = x.args[1]
            x = subst(x, {y: col(y.args[1], j) for y in subterms(x) if y.op == "fn" and y.args[0] == "colwise"})
            m[s] = norm(x)
    return subst(t, m) if m else sel(t, j)


def sets(F):
    a, b = A(0), A(1)
    n = fn("cols", a)
    j = mk("s", "j")
    i = mk("s", "i")
    dist = lambda x, y: norm(sub(x, y))
    for name, g in (("CalculateSquaredDistanceToSet", lambda x: power(x, 2)), ("CalculateDistanceToSet", lambda x: x)):
        F.ctx.need(F.all(name), name)
        for f in F.all(name):
            v = F.run(f).result
            w = same(unroot(at(v, j)), g(dist(col(a, j), b)))
            F.ob(f, "elements", w, "does not give the distance from the point to every column")
    for f in F.all("ClosestPointInSet"):
        v = F.run(f).result
        w = "not the position of a smallest distance: " + show(v)[:200]
        if v.op == "fn" and v.args[0] == "argminCoeff":
            e = unroot(at(v.args[1], j))
            w = same(e, power(dist(col(a, j), b), 2)) and same(e, dist(col(a, j), b))
        F.ob(f, "closest", w, "does not give the column closest to the point")
    F.ctx.need(F.all("ClosestPointInSet"), "ClosestPointInSet")
    for name, g in (("CalculateSquaredDistanceMatrix", lambda x: power(x, 2)), ("CalculateDistanceMatrix", lambda x: x)):
        F.ctx.need(F.all(name), name)
        for f in F.all(name):
            it = F.run(f)
            r = it.result
            h = lambda x: x
            if r.op == "fn" and r.args[0] == "cwiseSqrt":
                r, h = r.args[1], sqrt
            w = cells(it, r, n, n, lambda v, x, y: norms(unroot(h(v))) in (norms(g(dist(col(a, x), col(a, y)))), ZERO if x is y else None), i, j)
            F.ob(f, "cells", w, "does not hold the distance between columns i and j in cell (i, j)")
    F.ctx.need(F.all("SquaredDistancesBetweenPointSets"), "SquaredDistancesBetweenPointSets")
    for f in F.all("SquaredDistancesBetweenPointSets"):
        it = F.run(f)
        r = it.result
        m = fn("cols", b)
        w = None
        if r.op == "mapped" and r.args[4].op == "part" and r.args[4].args[0] in ("col", "row"):
            base, iv, lo, hi, idx, v = r.args
            c = idx.args[0] == "col"
            x, y = (a, b) if c else (b, a)
            ok = idx.args[1] is iv and lo is ZERO and hi is fn("cols", y) and base.op == "fn" and base.args[1:3] == (n, m)
            w = None if ok else "columns are left out: " + show(r)[:200]
            e = at(v if not (v.op == "fn" and v.args[0] == "tr") else v.args[1], j)
            w = w or same(unroot(e), power(dist(col(x, j), col(y, iv)), 2))
        else:
            w = cells(it, r, n, m, lambda v, x, y: norms(unroot(v)) is norms(power(dist(col(a, x), col(b, y)), 2)), i, j)
        F.ob(f, "cells", w, "does not hold the squared distance between column i and column j of the other set in cell (i, j)")


def unroot(t):
    """the root of a squared norm is the norm"""
    m = {}
    for s in subterms(t):
        if s.op == "fn" and s.args[0] == "sqrt":
            for q in subterms(s.args[1]):
                if q.op == "fn" and q.args[0] == "norm" and power(q, 2) is s.args[1]:
                    m[s] = q
    return subst(t, m) if m else t


def cells(it, r, n, m, good, i, j):
    """every cell (i, j) of an n x m matrix is written, with a value good(v, i, j) accepts"""
    base = r
    while base.op in ("fold", "mapped", "astore"):
        base = base.args[1] if base.op == "fold" else base.args[0]
    if not (base.op == "fn" and base.args[1:3] in ((n, m),)):
        return "size: " + show(base)[:200]
    ws = [e for e in it.events if e.kind == "store" and e.loc.op == "Li" and e.loc.args[1].op == "ij"]
    dom = [le(ZERO, i, True), lt(i, n, True), le(ZERO, j, True), lt(j, m, True)]
    reach = []
    for e in ws:
        x, y = e.loc.args[1].args
        ivs = [it.loopinfo[l]["iv"] for l in e.loops]
        if len(ivs) > 2 or {x, y} != set(ivs) or any(it.loopinfo[l].get("brk") is not None for l in e.loops):
            return "a cell that is not given by the loops: " + show(e.loc.args[1])[:200]
        mp = {x: i, y: j} if x is not y else {x: i}

        def sb(t):
            for _ in range(3):
                t = subst(t, mp)
            return t
        facts = [sb(z) for z in e.facts] + ([eq(i, j)] if x is y else [])
        for (v,), cs in cases([sb(e.val)], facts):
            d = all(holds(s, eq(i, j)) or contra(s) for s in splits(list(cs) + dom))
            if not (good(v, i, j) or good(v, j, i) and n is m or d and good(subst(v, {j: i}), i, i)):
                return "line %s: %s" % (e.ln, show(v)[:200])
        if not all(holds(s, g) for g in dom for s in splits(facts) if not contra(s)):
            return "line %s: may write outside of the matrix" % e.ln
        reach.append(land(*facts))
    left = [s for s in splits(dom + [lnot(c) for c in reach]) if not contra(s) and not linear.empty(s)]
    if left:
        left = [s for s in left if not (holds(s, lnot(eq(i, j))) and holds(s, le(i, j, True)) and holds(s, le(j, i, True)))]
    return "cells without a value: " + " and ".join(show(z) for z in left[0])[:200] if left else None
