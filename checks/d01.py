"""D01: distances between sequences: dynamic time warping is the cheapest alignment, whatever was evaluated before;
the Hausdorff distance is the largest distance to the nearest partner."""
from .numeric import *

ASSUMPTIONS = ["the caller's distance is a function of the two items, never not-a-number", "sizes fit the signed size type"]
ME = I.L_root(mk("var", "me"))
DR, DC = mk("s", "d01", "r"), mk("s", "d01", "c")  # any row, any column


# ---- matrices
def dims(M):
    """rows and columns of a matrix value"""
    while M.op in ("mapped", "fold", "astore"):
        M = M.args[1] if M.op == "fold" else M.args[0]
    if M.op == "ite" and dims(M.args[1]) == dims(M.args[2]):
        return dims(M.args[1])
    if M.op == "fn" and M.args[0] in ("zeros", "ones", "dyn", "fill") and len(M.args) >= 3:
        return M.args[1], M.args[2]
    return fn("rows", M), fn("cols", M)


def cell(M, r, c, fs):
    """the number in row r, column c; None when it is not known"""
    if M.op == "ite":
        x, y = cell(M.args[1], r, c, fs + [M.args[0]]), cell(M.args[2], r, c, fs + [lnot(M.args[0])])
        return ite(M.args[0], x, y) if x is not None and y is not None else None
    if M.op == "fn" and M.args[0] in ("zeros", "ones") and len(M.args) == 3:
        return ZERO if M.args[0] == "zeros" else ONE
    if M.op == "astore" and M.args[1].op == "ij":
        d = [sub(a, b) for a, b in zip(M.args[1].args, (r, c))]
        if all(x is ZERO for x in d):
            return M.args[2]
        if any(apart(x, fs) for x in d):
            return cell(M.args[0], r, c, fs)
        return None
    if M.op == "mapped" and M.args[4].op == "ij":
        base, iv, lo, hi, ix, val = M.args
        for a, b in zip(ix.args, (r, c)):
            if iv not in subterms(a) and apart(sub(a, b), fs):
                return cell(base, r, c, fs)
        for a, b in zip(ix.args, (r, c)):
            k = poly_of(a).get(((iv, 1),))
            if k in (1, -1) and iv not in subterms(sub(a, scale(iv, k))):
                at = scale(sub(b, sub(a, scale(iv, k))), k)
                if any(sub(subst(x, {iv: at}), y) is not ZERO for x, y in zip(ix.args, (r, c))):
                    continue
                if len(iv.args) > 4 and iv.args[4] is num(-1):
                    lo, hi = add(hi, ONE), add(lo, ONE)
                elif len(iv.args) > 4 and iv.args[4] is not ONE:
                    return None
                if proved(fs, le(lo, at)) and proved(fs, lt(at, hi, True)):
                    return subst(val, {iv: at})
                if proved(fs, lt(at, lo, True)) or proved(fs, le(hi, at)):
                    return cell(base, r, c, fs)
        return None
    return mk("sel", M, mk("ij", r, c))


def apart(d, fs):
    return proved(fs, le(ONE, d)) or proved(fs, le(d, num(-1)))


def border(M, fs, known=None):
    """what is wrong with the first row and column; known: a matrix whose border is right"""
    R, C = dims(M)
    out = []
    for r, c, want, f in ((ZERO, ZERO, ZERO, []), (DR, ZERO, INF, [le(ONE, DR), le(add(DR, ONE), R)]), (ZERO, DC, INF, [le(ONE, DC), le(add(DC, ONE), C)])):
        f = fs + f
        if contra(f) or dead(f):
            continue
        v = cell(M, r, c, f)
        ok = v is want or known is not None and v is mk("sel", known, mk("ij", r, c))
        if not ok:
            out.append("row %s, column %s holds %s" % ("0" if r is ZERO else "r", "0" if c is ZERO else "c", show(v)[:60] if v is not None else "something unknown"))
    return out[0] if out else None


INF = mk("lit", "+inf")


def alternatives(M, fs):
    """a matrix value case by case, impossible cases left out"""
    for (x,), cs in cases([M], fs):
        x, cs = whole_conds(x, cs)
        if not contra(atoms(cs)) and not dead(cs):
            yield x, cs


def whole_conds(x, cs):
    return x, list(cs)


def table(t):
    """t = G[last row, last column] for nested loops that fill G -> (G's start, outer, inner, H, row, column, value, at)"""
    if t.op != "sel" or t.args[1].op != "ij":
        return "the result is not an element of the table: " + show(t)[:80]
    G, at = t.args[0], t.args[1]
    if G.op != "fold":
        return "the table is not filled by loops: " + show(G)[:80]
    L, p0, H, ev = G.args
    if ev.op != "fold" or ev.args[1] is not H:
        return "the table is not filled by two nested loops"
    L2, _, H2, ev2 = ev.args
    if ev2.op != "astore" or ev2.args[0] is not H2 or ev2.args[1].op != "ij":
        return "a round of the loops does not write one element: " + show(ev2)[:80]
    return p0, L, L2, H2, ev2.args[1].args, ev2.args[2], at.args


def ivar(L, t):
    xs = {s for s in subterms(t) if s.op == "s" and s.args[0] == "iv" and s.args[2:] == L.args[:3] and s.args[1] is L.args[3]}
    return xs.pop() if len(xs) == 1 else mk("s", "iv", L.args[3], *L.args[:3])


def filled(t, n, m, inv):
    """the table's last element is the cheapest alignment of n with m items; what is wrong otherwise"""
    w = table(t)
    if isinstance(w, str):
        return w
    p0, L, L2, H, (pr, pc), val, (ar, ac) = w
    size0 = [le(ZERO, n), le(ZERO, m)] + inv
    if sub(ar, n) is not ZERO or sub(ac, m) is not ZERO:
        return "the result is element %s, %s of the table" % (show(ar)[:40], show(ac)[:40])
    # the loops go over every row 1..n and column 1..m, upwards
    for want in ((pr, n), (pc, m)):
        ok = None
        for X in (L, L2):
            iv = ivar(X, mk("ij", want[0], val))
            off = sub(want[0], iv)
            lo, hi, st = X.args[:3]
            if st is ONE and iv not in subterms(off) and sub(add(lo, off), ONE) is ZERO and sub(sub(add(hi, off), ONE), want[1]) is ZERO:
                ok = X
        if ok is None:
            return "the loops do not go over every item, first to last (%s)" % show(want[0])[:40]
    r, c = mk("s", "d01", "row"), mk("s", "d01", "col")
    i1, i2 = ivar(L, mk("ij", pr, pc, val)), ivar(L2, mk("ij", pr, pc, val))
    sol = {}
    for p, x in ((pr, r), (pc, c)):
        for iv in (i1, i2):
            if iv in subterms(p):
                sol[iv] = sub(x, sub(p, iv))
    if len(sol) != 2:
        return "rows and columns are not those of the two loops"
    val = subst(val, sol)
    fs = size0 + [le(ONE, r), le(r, n), le(ONE, c), le(c, m)]
    prev = [mk("sel", H, mk("ij", a, b)) for a, b in ((sub(r, ONE), c), (sub(r, ONE), sub(c, ONE)), (r, sub(c, ONE)))]
    cost = fn("()", mk("s", "arg", 2), sel(mk("s", "arg", 0), sub(r, ONE)), sel(mk("s", "arg", 1), sub(c, ONE)))
    any_ = False
    for (v,), cs in expand([val], fs):
        if dead(cs):
            continue
        any_ = True
        d = sub(v, cost)
        if d not in prev:
            return "an element is %s, not the items' distance plus a neighbour" % show(v)[:100]
        for o in prev:
            if o is not d and not holdsall(cs, d, o):
                return "an element adds %s although %s may be smaller (under %s)" % (show(d)[-60:], show(o)[-60:], " and ".join(show(x) for x in cs[len(fs):])[:120])
    if not any_:
        return "no element is ever written"
    # the table the loops start from
    some = False
    for M, cs in alternatives(p0, size0):
        some = True
        R, C = dims(M)
        if not (proved(cs, le(add(n, ONE), R)) and proved(cs, le(add(m, ONE), C))):
            return "the table may be too small (%s) under %s" % (show(M)[:60], " and ".join(show(x) for x in cs)[:900])
        b = border(M, cs, fld(mk("s", "init", mk("var", "me")), "dtw_matrix_") if inv else None)
        if b:
            return "the table starts wrong: " + b
    return None if some else "no table"


def holdsall(cs, d, o):
    return proved(cs, le(d, o))


# ---- extrema
def size_(t):
    """number of elements of a list that is only written into"""
    while t.op == "fold" and keeps(t.args[3], t.args[2]) or t.op in ("astore", "mapped"):
        t = t.args[1] if t.op == "fold" else t.args[0]
    return size(t)


def keeps(ev, H):
    if ev is H:
        return True
    if ev.op == "ite":
        return keeps(ev.args[1], H) and keeps(ev.args[2], H)
    return ev.op in ("astore", "mapped") and keeps(ev.args[0], H)


def pickone(c, x, y):
    for w in (True, False):
        if c in (lt(y, x, w), le(y, x, w)):
            return tmax(x, y)
        if c in (lt(x, y, w), le(x, y, w)):
            return tmin(x, y)
    return ite(c, x, y)


def at0(t, k):
    """element k of a list that loops write only at k, as a loop over that one value"""
    if t.op == "fold":
        L, p0, H, ev = t.args
        h = mk("s", "H", "scalar", *H.args[1:])

        def val(e):
            if e is H:
                return h
            if e.op == "ite":
                c = subst(e.args[0], {sel(H, k): h})
                x, y = val(e.args[1]), val(e.args[2])
                return None if x is None or y is None or H in subterms(c) else pickone(c, x, y)
            if e.op == "astore" and e.args[0] is H and sub(e.args[1], k) is ZERO:
                return subst(e.args[2], {sel(H, k): h})
            return None
        v = val(ev)
        if v is None or H in subterms(v):
            return None
        b = at0(p0, k)
        return None if b is None else mk("fold", L, b, h, v)
    return sel(t, k)


def scalars(t):
    """t with lists of one element replaced by that element, loops of one round written out"""
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        y = x
        if x.op == "fold":
            L, p0, H, ev = x.args
            n = [size_(s.args[1]) if s.op == "fn" and s.args[0] == "size" else s for s in L.args[:3]]
            if n[0] is ZERO and n[1] is ONE and n[2] is ONE:
                iv = ivar(L, ev)
                y = go(subst(ev, {iv: ZERO, H: p0}))
                memo[x] = y
                return y
        if x.op == "sel" and x.args[0].op == "fold" and isc(x.args[1]):
            z = at0(x.args[0], x.args[1])
            if z is not None:
                memo[x] = go(z)
                return memo[x]
        memo[x] = y
        return y

    def walk(x, depth=0):
        if not isinstance(x, Term):
            return tuple(walk(y, depth) for y in x) if isinstance(x, tuple) else x
        y = go(x)
        if y is not x and depth < 40:
            return walk(y, depth + 1)
        if not x.args or x.op in ("s", "var", "c", "str"):
            return x
        args = tuple(walk(a, depth) if isinstance(a, (Term, tuple)) else a for a in x.args)
        if all(a is b for a, b in zip(args, x.args)):
            return x
        return mk(x.op, *args)
    return walk(t)


def extremum(t):
    """t = the least or greatest of a start value and a value per round -> (kind, start, lo, hi, variable, value)"""
    if t.op == "fn" and t.args[0] in ("min", "max") and len(t.args) == 3:
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            r = extremum(b) if b.op == "fold" else None
            if r and r[0] == t.args[0] and a is r[1]:
                return r
        return None
    if t.op != "fold" or t.args[0].args[0] == "w" or t.args[0].args[2] is not ONE:
        return None
    L, p0, H, ev = t.args
    kind = ev.args[0] if ev.op == "fn" else None
    if kind not in ("min", "max") or len(ev.args) != 3 or H not in ev.args[1:]:
        return None
    x = ev.args[1] if ev.args[2] is H else ev.args[2]
    if H in subterms(x):
        return None
    return kind, p0, L.args[0], L.args[1], ivar(L, x), x


def hausdorff(t):
    a, b, d = (mk("s", "arg", i) for i in range(3))
    t = scalars(t)
    o = extremum(t)
    if not o or o[0] != "max":
        return "not a maximum over the first list: " + show(t)[:120]
    if o[1] is not ZERO:
        return "the maximum starts from " + show(o[1])[:40]
    if o[2] is not ZERO or sub(o[3], size(a)) is not ZERO:
        return "the maximum goes from %s to %s" % (show(o[2])[:40], show(o[3])[:40])
    i = extremum(subst(o[5], {o[4]: IX}))
    if not i or i[0] != "min":
        return "not the distance to the nearest item: " + show(o[5])[:100]
    if i[1] is not INF:
        return "the minimum starts from " + show(i[1])[:40]
    if i[2] is not ZERO or sub(i[3], size(b)) is not ZERO:
        return "the minimum goes from %s to %s" % (show(i[2])[:40], show(i[3])[:40])
    want = fn("()", d, sel(a, IX), sel(b, i[4]))
    return None if i[5] is want else "the value compared is " + show(i[5])[:100]


def run(ctx):
    ctx.rule("the warping table has 0 and infinities on its border before every evaluation and after it, and every element is the items' distance plus the least of its three neighbours; "
             "the Hausdorff distance is a maximum over the first list of minima over the second")
    F = Fns(ctx, "path", "simple_dtw::")
    a, b = mk("s", "arg", 0), mk("s", "arg", 1)
    M0 = fld(mk("s", "init", mk("var", "me")), "dtw_matrix_")
    r0, c0 = fn("rows", M0), fn("cols", M0)
    # construction
    ctors = [f for f in F.prog.funcs if f["q"] == "simple_dtw::SimpleDTW::SimpleDTW" and f.get("body") is not None and not any("SimpleDTW" in p["t"] for p in f["params"])]
    ctx.need(len(ctors) >= 2, "constructors of SimpleDTW")
    for f in ctors:
        ctx.analysed(f)
        it = I.Interp(F.prog)
        it.run(f, this=ME, args=[mk("s", "arg", i) for i in range(len(f["params"]))])
        M = it.read(it.state, I.L_f(ME, "dtw_matrix_"))
        bad, n = None, 0
        un = [s for s in subterms(M) if s.op == "uninit"]
        fs = [le(ZERO, mk("s", "arg", i)) for i in range(len(f["params"]))]
        fs += [eq(fn(k, u), ZERO) for u in un for k in ("rows", "cols")]
        for x, cs in alternatives(M, fs):
            n += 1
            R, C = dims(x)
            if not (proved(cs, le(ONE, R)) and proved(cs, le(ONE, C))):
                bad = bad or "the table may be empty (%s)" % show(x)[:60]
            bad = bad or border(x, cs)
        F.ob(f, "border", bad or (None if n else "no table"), "does not start with a right border")
    # evaluation
    f = F.pick("simple_dtw::SimpleDTW::EvaluateWarpingCost", "vector", "vector", "")
    ctx.analysed(f)
    it = I.Interp(F.prog)
    it.run(f, this=ME, args=[mk("s", "arg", i) for i in range(3)])
    inv = [le(ONE, r0), le(ONE, c0)]
    F.ob(f, "alignment", filled(it.result, size(a), size(b), inv), "is not the cost of the cheapest alignment")
    last = it.read(it.state, I.L_f(ME, "dtw_matrix_"))
    t = it.result
    F.ob(f, "history", None if t.op == "sel" and t.args[0] is last else "the table is changed after the evaluation", "leaves a table that spoils the next evaluation")
    F.inbounds(f, it)
    f = F.pick("ComputeDTWDistance", "vector", "vector", "")
    it = F.run(f)
    F.ob(f, "alignment", filled(subst(it.result, {fn(k, u): ZERO for u in subterms(it.result) if u.op == "uninit" for k in ("rows", "cols")}), size(a), size(b), []), "is not the cost of the cheapest alignment")
    F.inbounds(f, it)
    f = F.pick("simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance", "vector", "vector", "function")
    it = F.run(f)
    F.ob(f, "distance", hausdorff(it.result), "is not the largest distance from an item of the first list to its nearest in the second")
    F.inbounds(f, it)
    ctx.minimum(8)
