"""K03: k-means clustering ends at a fixed point of nearest labels and averaged centres."""
import sys

from engine.driver import rel

from .numeric import *

ASSUMPTIONS = ["distances are not NaN or infinite and the caller's functions are pure", "uniform_int_distribution(a, b) draws from a..b", "labels fit 32 bits"]
A = lambda i: mk("s", "arg", i)
NS = "simple_kmeans_clustering::SimpleKMeansClustering::"
STEPS = ("PerformSingleClusteringIteration", "ComputeClusterCenters", "ComputeClusterCentersWeighted", "CheckForConvergence")


def run(ctx):
    ctx.rule("labels are arg-min folds over the centres, centres average exactly the items of a label, the loop is left only when relabelling changes nothing")
    sys.setrecursionlimit(100000)
    F = Named(ctx, "cluster", NS)
    for f in F.all("PerformSingleClusteringIteration"):
        it = F.run(f)
        F.ob(f, "labels", labels(it, it.result, A(0), A(1), A(2)), "does not give every item the number of a closest centre")
        F.inbounds(f, it)
    for n, w in (("ComputeClusterCenters", 0), ("ComputeClusterCentersWeighted", 1)):
        for f in F.all(n):
            it = F.run(f)
            F.ob(f, "centres", centres(it, it.result, A(0), A(1) if w else None, A(1 + w), A(2 + w), A(3 + w)), "does not average exactly the items of each label")
    for f in F.all("CheckForConvergence"):
        it = F.run(f)
        F.ob(f, "stable", unchanged(it, it.result, A(0), A(1)), "does not compare all labels")
    for n, w in (("Cluster", 0), ("ClusterWeighted", 1)):
        fs = F.all(n)
        ctx.need(len(fs) >= 2, "overloads of " + n)
        for f in fs:
            it = opaque(F, f, len(f["params"]) > 4 + w)
            if len(f["params"]) == 4 + w:
                F.ob(f, "fixed point", fixed(it, it.result, w), "can end with labels or centres that are not those of each other")
            else:
                begins(F, f, it, it.result, w, n)
    ctx.minimum(12)


class Named(Fns):
    def ob(self, f, key, bad, msg):
        n = f["q"].split("::")[-1] + (" from data" if f["params"][-1]["n"] and "bool" in f["params"][-1]["t"] else "")
        self.ctx.ob("%s: %s" % (n, key), not bad, "%s:%s %s" % (rel(f["file"]), f["ln"], n), "%s %s" % (n, msg), bad or "")


def opaque(F, f, recursive):
    def hk(it, st, fr, e, q, oloc, args):
        if fr is None:
            return NotImplemented
        return mk("fn", q.split("::")[-1], *[it.argv(st, a) for a in args])

    F.ctx.analysed(f)
    hooks = {NS + n: hk for n in STEPS}
    if recursive:
        hooks[f["q"]] = hk
    it = I.Interp(F.prog, hooks=hooks)
    it.run(f)
    return it


def unwrap(t):
    if t.op == "fn" and t.args[0] == "narrow":
        t = t.args[-1]
    return t


def tracks(it, L, dist, ids, option, what, bound):
    """the pair (dist, ids) carried by loop L is always an option and never worse than any option seen"""
    info = it.loopinfo.get(L)
    if info is None or info.get("brk") is not None:
        return "the selection may stop early"
    cd, ci = info["carried"].get(dist), info["carried"].get(ids)
    if cd is None or ci is None:
        return "distance and number are not kept together"
    iv = info["iv"]
    d = option(iv)
    lo = L.args[0]
    if L.op != "loop" or L.args[2] is not ONE or not (L.args[1] is bound):
        return "looks at %s" % show(L)
    if not (lo is ZERO and infinite(cd[0]) or lo is ONE and cd[0] is option(ZERO) and ci[0] is ZERO or lo is ZERO and cd[0] is option(ZERO) and ci[0] is ZERO):
        return "starts from %s, %s" % (show(cd[0])[:60], show(ci[0])[:60])
    for (x, y), cs in pairs([cd[1], ci[1]], d, dist):
        if dead(cs):
            continue
        if y is ids:
            if not (x is dist and known(cs, [le(dist, d)]) or x is d and known(cs, [le(dist, d), le(d, dist)])):
                return "the number of a farther one may stay: distance %s" % show(x)[:60]
        elif unwrap(y) is iv:
            if not (x is d and known(cs, [le(d, dist)])):
                return "a farther one may be chosen: distance %s" % show(x)[:60]
        else:
            return "chooses %s" % show(y)[:60]
    return None


def pairs(ts, d, dist):
    """cases of ts; a bare minimum is split into its two sides"""
    for vs, cs in cases(ts):
        m = next((v for v in vs if v.op == "fn" and v.args[0] == "min" and d in v.args and dist in v.args), None)
        if m is None:
            yield vs, cs
            continue
        for c, r in ((lt(d, dist), d), (le(dist, d), dist)):
            yield [r if v is m else v for v in vs], cs + [c]


def infinite(t):
    return t.op == "lit" and str(t.args[0]) in ("+inf", "inf") or t.op == "fn" and "infinity" in str(t.args[0])


def closest(it, t, item, dist, centres):
    t = unwrap(t)
    if t.op != "fold":
        return "is %s" % show(t)[:100]
    L, H = t.args[0], t.args[2]
    info = it.loopinfo.get(L)
    if info is None:
        return "unknown selection"
    best = None
    for D in info["carried"]:
        if D is H or D is info["iv"]:
            continue
        for opt in (lambda i: fn("()", dist, sel(centres, i), item), lambda i: fn("()", dist, item, sel(centres, i))):
            bad = tracks(it, L, D, H, opt, "centre", size(centres))
            if not bad:
                return None
            best = best or bad
    return best or "no distance is kept"


def mapping(t, n):
    """the body of a list of n values, with its counter"""
    if t.op == "mapped":
        p0, iv, lo, hi, idx, v = t.args
        if idx is iv and lo is ZERO and hi is n and size(p0) is n:
            return iv, v
    if t.op == "seq" and len(t.args) == 1 and t.args[0][0] == "loop":
        _, L, parts = t.args[0][:3]
        if len(parts) == 1 and parts[0][0] == "item" and L.args[0] is ZERO and L.args[1] is n and L.args[2] is ONE:
            return L, parts[0][1]
    return None, None


def labels(it, t, data, dist, centres):
    iv, v = mapping(t, size(data))
    if iv is None:
        return "not one label for every item: %s" % show(t)[:120]
    if iv.op == "loop":
        iv = it.loopinfo[iv]["iv"] if iv in it.loopinfo else iv
    return closest(it, v, sel(data, iv), dist, centres)


def centres(it, t, data, weights, lab, avg, k):
    iv, v = mapping(t, k)
    if iv is None:
        return "not one centre for every label: %s" % show(t)[:120]
    if iv.op == "loop":
        iv = it.loopinfo[iv]["iv"] if iv in it.loopinfo else iv
    want = [data] + ([weights] if weights is not None else [])
    if v.op != "fn" or v.args[0] != "()" or v.args[1] is not avg or len(v.args) != 2 + len(want):
        return "a centre is %s" % show(v)[:100]
    for x, src in zip(v.args[2:], want):
        if x.op != "sel" or x.args[1] is not iv:
            return "averages %s" % show(x)[:100]
        bad = grouped(it, x.args[0], src, lab, k, size(data))
        if bad:
            return bad
    return None


def grouped(it, g, src, lab, k, n):
    """g has k lists, the l-th of all src[i] with lab[i] = l"""
    if g.op != "fold":
        return "items are not grouped: %s" % show(g)[:100]
    L, p0, H, ev = g.args
    info = it.loopinfo.get(L)
    if info is None or info.get("brk") is not None or L.op != "loop" or L.args[0] is not ZERO or L.args[1] not in (n, size(lab)) or L.args[2] is not ONE:
        return "does not group every item: %s" % show(L)[:80]
    iv = info["iv"]
    if not (p0.op == "seq" and len(p0.args) == 1 and p0.args[0][0] == "rep" and p0.args[0][1] is k and (size(p0.args[0][2]) is ZERO or p0.args[0][2] is mk("zero"))):
        return "does not start with an empty group for every label: %s" % show(p0)[:80]
    l = sel(lab, iv)
    if ev.op != "astore" or ev.args[0] is not H or ev.args[1] is not l:
        return "adds to %s" % show(ev)[:100]
    v = ev.args[2]
    if v.op != "seq" or [p for p in v.args] != [("all", sel(H, l)), ("item", sel(src, iv))]:
        return "adds %s" % show(v)[:100]
    return None


def unchanged(it, t, a, b):
    """t is true exactly if a and b agree everywhere"""
    t = tobool(t)
    if t in (eq(a, b), eq(b, a)):
        return None
    want = None
    for x in subterms(t):
        if x.op == "fn" and x.args[0] == "std::equal" and all(y.op == "it" for y in x.args[1:]) and len(x.args) in (4, 5):
            it1 = [(y.args[0], y.args[1]) for y in x.args[1:]]
            la, lb = I.L_root(mk("var", "arg", 0)), I.L_root(mk("var", "arg", 1))
            both = {(it1[0][0], it1[2][0])} & {(la, lb), (lb, la)}
            n = {la: size(a), lb: size(b)}
            if both and it1[1][0] is it1[0][0] and it1[0][1] is ZERO and it1[2][1] is ZERO and it1[1][1] is n[it1[0][0]]:
                want = lnot(tobool(x))
        if x.op == "exists":
            L, c = x.args
            info = it.loopinfo.get(L)
            if info and L.op == "loop" and L.args[0] is ZERO and L.args[1] in (size(a), size(b)) and L.args[2] is ONE:
                iv = info["iv"]
                if c is lnot(eq(sel(a, iv), sel(b, iv))):
                    want = x
    if want is None:
        return "returns %s" % show(t)[:100]
    yes, no = decide(t, want) if want.op == "exists" else (subst(t, {want.args[0]: FALSE}), subst(t, {want.args[0]: TRUE}))
    if yes is not FALSE and yes is not ZERO:
        return "may accept labels that changed"
    if no is not TRUE and no is not ONE:
        return "may reject labels that did not change"
    return None


def decide(t, x):
    return subst(t, {x: TRUE}), subst(t, {x: FALSE})


def fixed(it, t, w):
    labs, cens = fld(t, "first"), fld(t, "second")
    own = [(L, i) for L, i in it.loopinfo.items() if any(x.op == "fn" and x.args[0] == STEPS[0] for c in i["carried"].values() for x in subterms(c[1]))]
    if len(own) != 1:
        return "iterates %d times" % len(own)
    L, info = own[0]
    cond = info.get("cond")
    cond = TRUE if cond is None else cond
    start = {h: v[0] for h, v in info["carried"].items()}
    new = {h: v[1] for h, v in info["carried"].items()}
    if labs.op == "fold" and cens.op == "fold" and labs.args[0] is L and cens.args[0] is L and info.get("brk") is None:
        # the state after the last round, whose condition no longer holds
        if info["kind"] != "do" and subst(cond, start) not in (TRUE, ONE):
            return "may end before the first round"
        after = subst(cond, new)
        bad = stable(labs.args[3], cens.args[3], [lnot(after), cond], w)
        if bad:
            return bad
        lab2 = fn(STEPS[0], A(0), A(1 + w), cens.args[3])
        if not any(proved([conv, cond], lnot(after)) for conv in agreeing(labs.args[2], lab2)):
            return "may go on after labels stopped changing: %s" % show(after)[:160]
        return None
    if info.get("brk") is None or cond not in (TRUE, ONE):
        return "returns %s and %s" % (show(labs)[:80], show(cens)[:80])
    # left in the middle of a round
    brk = info["brk"]
    bad = stable(labs, cens, [brk], w)
    if bad and subst(brk, start) in (FALSE, ZERO):
        b2 = stable(subst(labs, new), subst(cens, new), [subst(brk, new)], w)
        if not b2:
            return None
    return bad


def agreeing(a, b):
    return [tobool(fn("CheckForConvergence", a, b)), tobool(fn("CheckForConvergence", b, a))]


def stable(lab, cen, facts, w):
    """cen averages the items by labels X, lab labels by cen, and lab and X agree"""
    data, weights, dist, avg, cs = A(0), A(1) if w else None, A(1 + w), A(2 + w), A(3 + w)
    want = "ComputeClusterCenters" + ("Weighted" if w else "")
    if cen.op != "fn" or cen.args[0] != want or len(cen.args) != 5 + w:
        return "centres are %s" % show(cen)[:160]
    X = cen.args[2 + w]
    if [cen.args[1]] + list(cen.args[2:2 + w]) + [cen.args[3 + w]] != [data] + ([weights] if w else []) + [avg] or cen.args[4 + w] not in (size(cs), narrowed(size(cs))):
        return "centres are %s" % show(cen)[:200]
    lab2 = fn(STEPS[0], data, dist, cen)
    if lab is not lab2 and lab is not X:
        return "labels are %s" % show(lab)[:160]
    if not any(proved(facts, c) for c in agreeing(X, lab2)):
        return "may end when labels still change: %s" % " and ".join(show(f) for f in facts)[:160]
    return None


def narrowed(t):
    return fn("narrow", lit("unsigned int"), t)


def begins(F, f, it, t, w, n):
    data, weights, dist, avg, k, pre = A(0), A(1) if w else None, A(1 + w), A(2 + w), A(3 + w), A(4 + w)
    one = many = 0
    for (v,), cs in cases([t]):
        if contra(cs):
            continue
        if proved(cs, eq(k, ONE)):
            one += 1
            ok = v.op == "seq" and len(v.args) == 1 and v.args[0][0] == "rep" and v.args[0][1] is size(data) and v.args[0][2] is ZERO
            F.ob(f, "one cluster", None if ok else show(v)[:200], "does not put every item into the only cluster")
            continue
        many += 1
        v2 = strip(v)
        head = [data] + ([weights] if w else []) + [dist, avg]
        if v2 is None or v2.op != "fn" or v2.args[0] != n or list(v2.args[1:-1]) != head:
            F.ob(f, "labels of the clustering", show(v)[:200], "does not return the labels of clustering the data given")
            continue
        for (c,), cs2 in cases([v2.args[-1]], cs):
            if c.op == "fn" and c.args[0].startswith("ComputeClusterCenters"):
                F.ob(f, "centres of a subset", subset(it, c, n, head, w, k), "starts from centres that are no averages of a subset of the data")
            else:
                F.ob(f, "elements", elements(it, c, data), "starts from centres that are no items")
                F.ob(f, "as many", howmany(it, c, k), "does not draw as many different items as clusters are asked for")
    F.ob(f, "cases", None if one and many else "%d, %d" % (one, many), "does not tell one cluster from several")


def strip(v):
    """x.first -> x"""
    for a in v.args:
        if isinstance(a, Term) and a.op == "fn" and fld(a, "first") is v:
            return a
    return None


def elements(it, c, src):
    """every entry of c is an entry of src"""
    if c.op != "seq":
        return "is %s" % show(c)[:100]
    for pc, loops, p in flatparts(c.args):
        if p[0] != "item":
            return "has %s" % str(p)[:80]
        x = p[1]
        if x.op != "sel" or x.args[0] is not src:
            return "has %s" % show(x)[:80]
        bad = drawn(it, x.args[1], src)
        if bad:
            return bad
    return None


def drawn(it, i, src):
    """i is a key of a map with keys drawn from the indices of src"""
    m = i.args[0].args[0] if i.op == "fld" and i.args[0].op == "sel" else None
    if m is None or i.args[1] != "first" or m.op != "fold" or size(m.args[1]) is not ZERO:
        return "takes %s" % show(i)[:100]
    ev = m.args[3]
    if ev.op != "astore" or ev.args[0] is not m.args[2]:
        return "draws %s" % show(ev)[:100]
    k = ev.args[1]
    if not (k.op == "fn" and k.args[0] == "()" and k.args[1].op == "fn" and "uniform_int_distribution" in k.args[1].args[0]):
        return "draws %s" % show(k)[:100]
    if not (k.args[1].args[1] is ZERO and k.args[1].args[2] is sub(size(src), ONE)):
        return "draws from %s" % show(k.args[1])[:100]
    return None


def flatparts(parts, pc=(), loops=()):
    for p in parts:
        if p[0] == "loop":
            yield from flatparts(p[2], pc, loops + (p[1],))
        elif p[0] == "alt":
            yield from flatparts(p[2], pc + (p[1],), loops)
            yield from flatparts(p[3], pc + (lnot(p[1]),), loops)
        else:
            yield pc, loops, p


def source(c):
    for pc, loops, p in flatparts(c.args):
        if p[0] == "item" and p[1].op == "sel":
            i = p[1].args[1]
            if i.op == "fld" and i.args[0].op == "sel":
                yield i.args[0].args[0], pc, loops, i


def howmany(it, c, k):
    """the draws go on until there are k different ones, and each is used"""
    got = 0
    for m, pc, loops, i in source(c):
        info = it.loopinfo.get(m.args[0]) if m.op == "fold" else None
        if info is None:
            return "unknown draws"
        cond = info.get("cond")
        want = lt(size(m.args[2]), k, True)
        if cond is None or not (proved([cond], want) and proved([want], cond)):
            return "draws while %s" % (show(cond)[:100] if cond is not None else "ever")
        if len(loops) != 1 or not (loops[0].args[0] is ZERO and loops[0].args[1] is fn("mapsize", m) and loops[0].args[2] is ONE):
            return "uses %s" % show(loops[0])[:100] if loops else "one"
        li = it.loopinfo.get(loops[0])
        if li is None or li.get("brk") is not None:
            return "may stop early"
        # a condition on the stored mark must hold for the mark stored
        mark = m.args[3].args[2]
        e = fld(i.args[0], "second")
        if not all(subst(x, {e: mark}) in (TRUE, ONE) for x in pc):
            return "only if %s" % show(pc[0])[:100]
        got += 1
    return None if got == 1 else "%d draws" % got


def subset(it, c, n, head, w, k):
    want = "ComputeClusterCenters" + ("Weighted" if w else "")
    if c.args[0] != want or len(c.args) != 5 + w:
        return "is %s" % show(c)[:100]
    sub_, subw, lab = c.args[1], c.args[2] if w else None, c.args[2 + w]
    bad = elements(it, sub_, head[0])
    if bad:
        return bad
    if w:
        Z = mk("s", "column")
        if subst(sub_, {head[0]: Z, size(head[0]): size(head[0])}) is not subst(subw, {head[1]: Z}):
            a = [p[1].args[1] for _, _, p in flatparts(sub_.args) if p[0] == "item" and p[1].op == "sel"]
            b = [p[1].args[1] for _, _, p in flatparts(subw.args) if p[0] == "item" and p[1].op == "sel" and p[1].args[0] is head[1]] if subw.op == "seq" else []
            la = [(x[0], x[1]) for x in flatparts(sub_.args)]
            lb = [(x[0], x[1]) for x in flatparts(subw.args)] if subw.op == "seq" else []
            if a != b or la != lb or not a:
                return "the subset's weights are %s" % show(subw)[:160]
    if list(c.args[3 + w:]) != [head[-1], k]:
        return "averages with %s" % show(c.args[3 + w])[:60]
    if not (lab.op == "fn" and lab.args[0] == n and list(lab.args[1:5 + w]) == [sub_] + ([subw] if w else []) + head[1 + w:] + [k]):
        return "the labels are %s" % show(lab)[:160]
    return None
