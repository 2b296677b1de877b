"""M05: averages are weighted means of all their items, spreads are sample standard deviations."""
import sys

from .numeric import *

ASSUMPTIONS = ["arithmetic is exact (rounding is out of scope)", "no value is NaN", "not all weights are zero", "the matrix library's eigenvalues and eigenvectors are what it documents"]
A = lambda i: mk("s", "arg", i)
WS = mk("s", "weights")
NOWS = mk("seq")
tabs = lambda x: fn("max", x, neg(x))


def run(ctx):
    ctx.rule("one round keeps average * weight so far equal to the sum of weight times item, from a start that holds for the items skipped before it")
    F = Fns(ctx, "math", "EigenHelpers::")
    lists = [f for f in F.all("AverageStdVectorDouble") + F.all("AverageEigenVector") if len(f["params"]) == 2]
    ctx.need(len(lists) >= 3, "averages of lists")
    for f in lists + F.all("AverageEigenVector3d") + F.all("AverageEigenVectorXd"):
        for name, ws, w in modes(A(0)):
            it = runw(F, f, A(0), ws)
            F.ob(f, name, mean(it, it.result, lambda i: sel(A(0), i), w, size(A(0))), "is not the weighted mean of all items")
            F.ob(f, name + " accesses", out(it), "reads outside of its arguments")
    spread(F)
    rotations(F)
    poses(F)
    ctx.minimum(16)


def out(it):
    bad = next(iter(safe(it)), None)
    return "line %s: %s" % (bad[0].ln, bad[1]) if bad else None


def modes(a):
    yield "equal weights", NOWS, lambda i: ONE
    yield "given weights", WS, lambda i: tabs(sel(WS, i))


def runw(F, f, a, ws, **kw):
    sys.setrecursionlimit(100000)
    F.ctx.analysed(f)
    SIZES[WS] = size(a)
    try:
        it = I.Interp(F.prog, **kw)
        it.run(f, args=[a, ws])
    finally:
        pass
    return it


def mean(it, v, x, w, n):
    """v is the mean of x(0..n-1) weighted by w(0..n-1)"""
    pre = list(it.state.facts)
    got = False
    for (t,), cs in cases([v], [z for z in pre if z.op == "lei"]):
        if dead(cs):
            continue
        if known(cs, [le(n, ONE)]):
            got = True
            if same(t, x(ZERO), cs):
                return "of one item: " + show(t)[:200]
            continue
        e = one(it, t, x, w, n, pre)
        if e:
            return e
        got = True
    return None if got else "no value"


def one(it, v, x, w, n, pre):
    up = total(n, mul(w(IX), x(IX)))
    down = n if w(IX) is ONE else total(n, w(IX))
    if not same(sums(v), mul(up, inv(down))) or not same(sums(v), sums(mul(inv(down), up))):
        return None
    if v.op != "fold" or v.args[0] not in it.loopinfo:
        return "not a running average: " + show(v)[:300]
    L, p0, H, ev = v.args
    info = it.loopinfo[L]
    lo, hi, iv = info["lo"], info["hi"], info["iv"]
    if info["step"] not in (1, ONE) or info.get("brk") is not None or same(hi, n, pre):
        return "not every item is looked at: " + show(L)[:200]
    wi = w(iv)
    S = mk("s", "S")
    tries = []
    for h, (q0, e, key) in info["carried"].items():
        if h is not H and not same(sub(e, h), wi):
            tries.append((h, q0))
    if wi is ONE:
        tries.append((iv, lo))
    why = "no running weight"
    for h, w0 in tries:
        f = lambda t: subst(t, {h: sub(S, wi)})
        d = same(cancel(f(sub(ev, H))), f(mul(mul(wi, inv(add(h, wi))), sub(x(iv), H))))
        if d:
            why = "one round: " + d
            continue
        if h is iv and w0 is ONE and lo is ONE and p0 is x(ZERO):
            return None
        if lo is ZERO and w0 is ZERO:
            return None
        s = sub(lo, ONE)
        if sub(p0, x(s)) is not ZERO and same(p0, x(s)):
            return "does not start with the item before the first round: " + show(p0)[:100]
        if w0 is not s and same(w0, w(s)) and not (h is iv and w0 is lo and s is ZERO):
            return "does not start with that item's weight: " + show(w0)[:100]
        if s is ZERO:
            return None
        return skipped(it, s, w, n)
    return why


def skipped(it, s, w, n):
    """every item before s has no weight"""
    for t in ([s.args[1], s.args[2]] if s.op == "ite" else [s]):
        if t is n:
            continue  # refused by the function itself: no such item
        ls = [y.args[1] for y in subterms(t) if y.op == "s" and y.args[0] == "last"]
        if len(ls) != 1 or t is not mk("s", "last", ls[0]):
            return "starts at item " + show(t)[:100]
        info = it.loopinfo[ls[0]]
        if info["lo"] is not ZERO or info["step"] not in (1, ONE) or info.get("brk") is None:
            return "skips from " + show(ls[0])[:100]
        iv = info["iv"]
        c = subst(info["brk"], {iv: IX})
        i = [le(ZERO, IX), le(add(IX, ONE), n)]
        bad = agree(c, lt(ZERO, w(IX)), i)
        if bad:
            return "does not skip exactly the leading items without weight: " + bad
    return None


def spread(F):
    a, m = A(0), A(1)
    n = size(a)
    dev = lambda mu: mul(total(n, mul(sub(sel(a, IX), mu), sub(sel(a, IX), mu))), inv(sub(n, ONE)))
    pre = [le(ONE, n, True)]

    def check(v, mu):
        if "size" not in show(v):
            return show(v)[:200]
        for (t,), cs in expand([sums(v)], pre):
            if dead(cs):
                continue
            if known(cs, [le(n, ONE)]):
                if same(t, ZERO, cs):
                    return "of one value: " + show(t)[:100]
            else:
                # the sum of squares, expanded or not
                w = same(t, fn("sqrt", dev(mu)), cs)
                if w:
                    return w
        return None
    f = F.pick("ComputeStdDevStdVectorDouble", "vector", "double")
    F.ob(f, "value", check(F.run(f).result, m), "is not the sample standard deviation about the mean")
    F.inbounds(f, F.run(f), pre)
    f = F.pick("ComputeStdDevStdVectorDouble", "vector")
    it = F.run(f)
    v = it.result
    M = mk("s", "mean")
    ms = [s for s in outer(v) | subterms(v) if s.op == "fold" and s.args[0] in it.loopinfo and not one(it, s, lambda i: sel(a, i), lambda i: ONE, n, pre)]
    v = sums(subst(v, {s: M for s in ms}))
    T = total(n, sel(a, IX))
    if not ms and T in subterms(v):
        v = ms = subst(v, {T: mul(M, n)})
    F.ob(f, "value", check(v, M) if ms else "no mean: " + show(v)[:200], "is not the sample standard deviation about the mean of the values")


def rotations(F):
    """the direction most aligned with all weighted quaternions"""
    f = F.pick("AverageEigenQuaterniond", "", "")
    a = A(0)
    for name, ws, w in modes(a):
        it = runw(F, f, a, ws)
        pre = [z for z in it.state.facts if z.op == "lei"]
        bad, got = None, False
        for (t,), cs in cases([it.result], pre):
            if dead(cs):
                continue
            if known(cs, [le(size(a), ONE)]):
                bad = bad or same(t, sel(a, ZERO), cs)
                continue
            got = True
            bad = bad or principal(it, t, lambda i: sel(a, i), w, size(a))
        F.ob(f, name, bad if got else "no value", "is not the principal direction of the weighted rotations")
        F.ob(f, name + " accesses", out(it), "reads outside of its arguments")


def principal(it, q, x, w, n):
    if q.op != "fn" or q.args[0] != "quat":
        return "not a quaternion: " + show(q)[:100]
    cs = q.args[1:] if len(q.args) == 5 else q.args[1].args if len(q.args) == 2 and q.args[1].op == "vec" else None
    if cs is None:
        return "not a quaternion: " + show(q)[:100]
    rows, vecs = [], set()
    for c in cs:  # x y z w
        if c.op == "fn" and "real" in c.args[0]:
            c = c.args[1]
        if c.op != "sel" or not isc(c.args[1]) or c.args[0].op != "sel":
            return "component " + show(c)[:100]
        rows.append(int(c.args[1].args[0]))
        vecs.add(c.args[0])
    if len(vecs) != 1 or sorted(rows) != [0, 1, 2, 3]:
        return "components of one vector: " + str(rows)
    v = vecs.pop()
    vs, col = v.args
    solver = vs.args[1] if vs.op == "fn" and vs.args[0].endswith("eigenvectors") else None
    if solver is None or col.op != "part" or col.args[0] != "col":
        return "not an eigenvector: " + show(v)[:100]
    k = col.args[1]
    selfadj = "SelfAdjoint" in show(vs)[:60]
    if not (selfadj and k is num(3)) and not greatest(it, k, solver):
        return "not the eigenvector of the greatest eigenvalue: " + show(k)[:200]
    m = [s for s in subterms(solver) if s.op == "fn" and s.args[0] == "mp" and len(s.args) == 3]
    for s in m:
        M, T = s.args[1:]
        if T.op == "fn" and T.args[0] == "tr" and T.args[1] is M or not (T.op == "fn" and T.args[0] == "tr"):
            break
    else:
        return "not the product of a matrix and its transpose: " + show(solver)[:200]
    if not (T.op == "fn" and T.args[0] == "tr" and T.args[1] is M):
        return "not the product of a matrix and its transpose: " + show(s)[:200]
    if M.op != "mapped":
        return "matrix of rotations: " + show(M)[:200]
    base, iv, lo, hi, idx, val = M.args
    if lo is not ZERO or same(hi, n) or idx.op != "part" or idx.args[0] != "col" or idx.args[1] is not iv:
        return "a rotation is left out: " + show(M)[:200]
    qi = x(iv)
    ok = {1: 0}
    for scale_ in (w(iv), fn("sqrt", w(iv))):
        col = val.args if val.op == "vec" else None
        if col is None or len(col) != 4:
            break
        if all(not same(col[rows[c]], mul(scale_, sel(qi, num(c)))) for c in range(4)):
            return None
    return "column " + show(val)[:300]


def greatest(it, k, solver):
    """k is the position of the greatest of the four eigenvalues of the solver"""
    if k.op == "fn" and k.args[0] == "argmaxCoeff":
        return "eigenvalues" in show(k) and solver in subterms(k)
    if k.op != "fold" or k.args[0] not in it.loopinfo:
        return False
    L, p0, H, ev = k.args
    info = it.loopinfo[L]
    iv = info["iv"]
    if not (info["hi"] is num(4) and info.get("brk") is None and (info["lo"] is ZERO or info["lo"] is ONE and p0 is ZERO)):
        return False
    if ev.op != "ite":
        return False
    for h, (q0, e, key) in info["carried"].items():
        if e.op == "fn" and e.args[0] == "max" and h in e.args[1:]:
            val = [z for z in e.args[1:] if z is not h]
            if len(val) != 1 or solver not in subterms(val[0]) or "eigenvalues" not in show(val[0]) or iv not in subterms(val[0]):
                continue
            if info["lo"] is ONE and q0 is not subst(val[0], {iv: ZERO}):
                continue
            if info["lo"] is ZERO and "inf" not in show(q0):
                continue
            for c, x, y in ((ev.args[0], ev.args[1], ev.args[2]), (lnot(ev.args[0]), ev.args[2], ev.args[1])):
                if x is iv and y is H and c in (lt(h, val[0]), le(h, val[0])):
                    return True
    return False


def poses(F):
    f = F.pick("AverageEigenIsometry3d", "", "")
    a = A(0)
    AVQ = lambda it, st, fr, e, q, oloc, args: mk("fn", "avgquat", *[it.argv(st, z) for z in args])
    for name, ws, w in modes(a):
        it = runw(F, f, a, ws, hooks={"EigenHelpers::AverageEigenQuaterniond": AVQ})
        pre = [z for z in it.state.facts if z.op == "lei"]
        bt = br = None
        got = False
        for h, x in it.loopinfo.items():
            for k, c in x["carried"].items():
                x["carried"][k] = tuple(canon(z) if isinstance(z, Term) else z for z in c)
        for (t,), cs in cases([canon(it.result)], pre):
            if dead(cs):
                continue
            if known(cs, [le(size(a), ONE)]):
                bt = bt or same(t, sel(a, ZERO), cs)
                continue
            got = True
            tr, ro = parts(t)
            bt = bt or ("no translation: " + show(t)[:200] if tr is None else mean(it, tr, lambda i: mk("fn", "trans", sel(a, i)), w, size(a)))
            if ro is None or ro.op != "fn" or ro.args[0] != "avgquat":
                br = br or "no average rotation: " + show(t)[:200]
            else:
                br = br or vecsame(ro.args[1], size(a), mk("fn", "quat", sel(a, IX)))
                if len(ro.args) < 3 or (ro.args[2] is not ws and not (ws is NOWS and size(ro.args[2]) is ZERO)):
                    br = br or "rotations are weighted differently"
        F.ob(f, name + ": translation", bt if got else "no value", "does not average the translations")
        F.ob(f, name + ": rotation", br if got else "no value", "does not average the rotations with the same weights")


def parts(t):
    if t.op == "fn" and t.args[0] == "mp" and len(t.args) == 3:
        x, y = t.args[1:]
        if x.op == "fn" and x.args[0] in ("Translation", "ctor:Translation"):
            return x.args[1], y
    return None, None
