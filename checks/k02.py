"""K02: hierarchical clustering merges the closest groups until none is within the threshold, and loses nothing."""
import sys

from engine.driver import rel
from engine.interp import leaves

from .numeric import *

ASSUMPTIONS = ["distances are neither NaN nor negative and the distance matrix is symmetric", "a parallel region has as many threads as omp_get_num_threads said"]
A = lambda i: mk("s", "arg", i)
NS = "simple_hierarchical_clustering::SimpleHierarchicalClustering::"
MASK, DIST, GROUPS = A(0), A(1), A(2)
STRATEGIES = ("single link", "complete link")


def run(ctx):
    ctx.rule("the search returns the least link distance over all pairs with the pair it belongs to; a round merges exactly that pair or ends")
    sys.setrecursionlimit(100000)
    for tu in ("cluster", "clusterp"):
        F = Named(ctx, tu, NS)
        F.omp = " with OpenMP" if tu == "clusterp" else ""
        fs = F.all("GetClosestPair")
        ctx.need(len(fs) == 1, "the search for the closest pair")
        for k, name in enumerate(STRATEGIES):
            f = next((f for f in F.prog.funcs if f["q"] == "tu::strategy%d" % k), None)
            ctx.need(f, "value of the strategy")
            it = I.Interp(F.prog)
            it.run(f)
            value = it.result
            ctx.analysed(fs[0])
            it = I.Interp(F.prog)
            it.run(fs[0], args=[MASK, DIST, GROUPS, value])
            Search(F, fs[0], it, k, name).run()
        cl = F.all("Cluster")
        ctx.need(len(cl) >= 2, "overloads of Cluster")
        for f in cl:
            merges(F, f)
    ctx.minimum(20)


class Named(Fns):
    def ob(self, f, key, bad, msg):
        n = f["q"].split("::")[-1]
        if n == "Cluster":
            n += " with distances" if "Matrix" in f["params"][1]["t"] else " with a function"
        n += self.omp
        self.ctx.ob("%s: %s" % (n, key), not bad, "%s:%s %s" % (rel(f["file"]), f["ln"], n), "%s %s" % (n, msg), bad or "")


def infinite(t):
    return t.op == "lit" and str(t.args[0]) in ("+inf", "inf") or t.op == "fn" and "infinity" in str(t.args[0])


class No(Exception):
    pass


class Search:
    """the closest pair: value and names of the two groups"""

    def __init__(self, F, f, it, k, name):
        self.F, self.f, self.it, self.k, self.name = F, f, it, k, name

    def run(self):
        r = self.it.result
        r = self.serial(r)
        pair, d = fld(r, "first"), fld(r, "second")
        ids = [fld(fld(pair, a), b) for a in ("first", "second") for b in ("first", "second")]
        try:
            opts = self.options(d, [], [])
            bad = self.complete(opts)
        except No as e:
            bad = str(e)
        self.F.ob(self.f, self.name + " distance", bad, "does not return the least distance between two groups")
        bad = None
        try:
            self.names(d, ids, [], {}, 0)
        except No as e:
            bad = str(e)
        self.F.ob(self.f, self.name + " pair", bad, "does not return the pair its distance belongs to")

    def serial(self, t):
        """one accumulator per thread, merged afterwards: the same as one accumulator; records run as records of values"""
        done = {}
        for x in subterms(t):
            if x.op == "fold" and x.args[1].op == "seq" and len(x.args[1].args) == 1 and x.args[1].args[0][0] == "rep" and (threads(x.args[1].args[0][1]) or x.args[1].args[0][1] is ONE):
                done[x] = x.args[1].args[0][1:3]
        hs = {x.args[2]: done[x][1] for x in done}
        inner = [x for x in subterms(t) if x.op == "fold"]
        for _ in range(4):
            for x in inner:
                if x.args[1] in hs:
                    hs[x.args[2]] = hs[x.args[1]]
        acc = lambda H: mk("s", "acc", H)
        cells = {}
        thread = lambda i: i.op == "fn" and i.args[0] == "omp_get_thread_num"

        def cell(y):
            """the current thread's cell of an array of cells"""
            if y.op == "astore" and thread(y.args[1]) and cell(y.args[0]) is not None:
                return y.args[2]
            if y.op == "ite":
                a, b = cell(y.args[1]), cell(y.args[2])
                return None if a is None or b is None else ite(y.args[0], a, b)
            if y.op == "fold" and y.args[1] in hs and y.args[2] in hs:
                ev = cell(y.args[3])
                return None if ev is None else split(y.args[0], acc(y.args[1]), acc(y.args[2]), ev, hs[y.args[2]])
            return acc(y) if y in hs else None

        out = {}
        for x, (n, x0) in done.items():
            own = {y: acc(y.args[0]) for y in subterms(x.args[3]) if y.op == "sel" and y.args[0] in hs and thread(y.args[1])}
            ev = cell(subst(x.args[3], own))
            if ev is not None:
                out[x] = (split(x.args[0], x0, acc(x.args[2]), ev), n)
        merged = {}
        for y in subterms(t):
            if y.op == "sel" and y.args[0] in out and y.args[1].op == "s" and y.args[1].args[0] == "iv":
                f, n = out[y.args[0]]
                if y.args[1].args[2] is ZERO and y.args[1].args[3] is n:
                    merged[y] = f
        t = subst(t, merged) if merged else t
        recs = {x: split(*x.args) for x in subterms(t) if x.op == "fold" and x.args[1].op == "rec"}
        return subst(t, recs) if recs else t

    # -- the least distance ------------------------------------------------------------------------------------------
    def options(self, t, loops, guards):
        """t as a minimum: [(loops, guards, value)]"""
        if infinite(t):
            return []
        if t.op == "s" and (t in self.held(loops)):
            return []
        if t.op == "fn" and t.args[0] == "min":
            return [o for x in t.args[1:] for o in self.options(x, loops, guards)]
        if t.op == "ite":
            c, a, b = t.args
            for g, x, y in ((c, a, b), (lnot(c), b, a)):
                rest = [z for z in conj(g) if z not in (lt(x, y), le(x, y))]
                if len(rest) < len(conj(g)):
                    # taken only when smaller
                    return self.options(x, loops, guards + rest) + self.options(y, loops, guards)
            return self.options(under(a, c), loops, guards + [c]) + self.options(under(b, lnot(c)), loops, guards + [lnot(c)])
        if t.op == "fold" and not self.ismax(t):
            L, p0, H, ev = t.args
            self.fullround(L)
            return self.options(p0, loops, guards) + self.options(ev, loops + [(L, H)], guards)
        return [(loops, guards, t)]

    def held(self, loops):
        return [H for _, H in loops]

    def ismax(self, t):
        return t.op == "fold" and any(x.op == "fn" and x.args[0] == "max" and t.args[2] in x.args for x in subterms(t.args[3])) or t.op == "fold" and t.args[3].op == "fold" and self.ismax(t.args[3])

    def fullround(self, L):
        info = self.it.loopinfo.get(L)
        if L.op != "loop" or isinstance(L.args[0], str) or L.args[2] is not ONE or (info is not None and info.get("brk") is not None):
            raise No("may not look at everything: %s" % show(L)[:100])

    def iv(self, L):
        if L not in self.it.loopinfo:
            raise No("unknown loop")
        return self.it.loopinfo[L]["iv"]

    def link(self, t, loops):
        """t as a link distance: (loops, cell, loops of the greatest); a greatest one for complete link"""
        inner = []
        if not self.ismax(t):
            return loops, t, []
        if self.k == 0:
            raise No("a single link distance is a greatest one")
        while t.op == "fold":
            L, p0, H, ev = t.args
            self.fullround(L)
            if not (p0 is ZERO or inner and p0 is inner[-1][1]):
                raise No("the greatest distance starts from %s" % show(p0)[:60])
            inner.append((L, H))
            t = ev
        if not (t.op == "fn" and t.args[0] == "max" and len(t.args) == 3 and inner[-1][1] in t.args):
            raise No("a link distance is %s" % show(t)[:100])
        t = [x for x in t.args[1:] if x is not inner[-1][1]][0]
        return loops + inner, t, [L for L, _ in inner]

    def index(self, x, ranges):
        """what an index of the matrix names: ('item', iv) or ('group', c, iv)"""
        if x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[0] is GROUPS:
            return ("group", x.args[0].args[1], x.args[1])
        if x in ranges:
            return ("item", x)
        raise No("uses the distance of %s" % show(x)[:60])

    def option(self, loops, guards, v):
        """(kind, a, b, guards) of one option"""
        n = len(loops)
        loops, cell, inner = self.link(v, loops)
        # merging what the threads found
        loops = [(L, H) for L, H in loops if not (threads(L.args[1]) and self.iv(L) not in subterms(v))]
        ranges = {self.iv(L): L for L, _ in loops}
        if cell.op != "sel" or cell.args[0] is not DIST or cell.args[1].op != "ij":
            raise No("an option is %s" % show(cell)[:100])
        ends = [self.index(x, ranges) for x in cell.args[1].args]
        used = set()
        names = []
        for e in ends:
            if e[0] == "item":
                L = ranges[e[1]]
                lo = L.args[0]
                if L.args[1] is not size(MASK):
                    raise No("items range over %s" % show(L)[:80])
                if L in inner:
                    raise No("a complete link distance covers several items")
                used.add(e[1])
                names.append(("item", e[1], lo))
            else:
                c, p = e[1], e[2]
                if c not in ranges or p not in ranges or ranges[c].args[1] is not size(GROUPS) or ranges[p].args[1] is not size(sel(GROUPS, c)) or ranges[p].args[0] is not ZERO:
                    raise No("members range over %s" % show(ranges.get(p, p))[:80])
                if self.k == 1 and ranges[p] not in inner:
                    raise No("a complete link distance is a least one")
                if self.k == 1 and ranges[c] in inner:
                    raise No("a complete link distance covers several groups")
                used.update((c, p))
                names.append(("group", c, ranges[c].args[0]))
        if used != set(ranges) or len(used) != len(ranges):
            raise No("loops that do not belong to the pair")
        return names, guards, len(loops)

    def complete(self, opts):
        """all pairs, and only pairs, are options"""
        seen = set()
        for loops, guards, v in opts:
            names, gs, _ = self.option(loops, guards, v)
            (ka, a, la), (kb, b, lb) = names
            free = {"item": lambda x: eq(sel(MASK, x), ZERO), "group": lambda x: lt(ZERO, size(sel(GROUPS, x)), True)}
            dims = [ge0(size(sel(GROUPS, x))) for k, x, _ in names if k == "group"] + [ge0(a), ge0(b)]
            want = [free[ka](a), free[kb](b)]
            pairs_ = [want]
            if ka == kb:
                pairs_ = [want + [lnot(eq(a, b))]]
                half = [want + [lt(a, b, True)], want + [lt(b, a, True)]]
            else:
                half = []
            # ranges that start later than zero
            los = []
            for x, l in ((a, la), (b, lb)):
                if l is not ZERO:
                    los.append(le(l, x, True))
            g = land(*(list(gs) + los))
            # only pairs of different, live groups (an empty group has no members to compare)
            live = [c for c in want if not (self.k == 0 and c.op in ("lei", "le"))]
            empty_ok = self.k == 0
            for c in pairs_[0]:
                if empty_ok and any(c is free["group"](x) for k, x, _ in names if k == "group"):
                    continue
                if not proved([g] + dims, c):
                    raise No("compares pairs it should not: %s" % show(g)[:160])
            # every such pair
            if proved(pairs_[0] + dims, g):
                seen.add(frozenset((ka, kb)) if ka != kb else ka + "s")
            elif any(proved(h + dims, g) for h in half):
                seen.add(ka + "s")
            else:
                raise No("leaves out pairs: %s" % show(g)[:160])
        need = {"items", "groups", frozenset(("item", "group"))}
        if seen != need:
            raise No("leaves out pairs: compares %s" % ", ".join(sorted(" and ".join(sorted(s)) if isinstance(s, frozenset) else s for s in seen)))
        return None

    # -- the pair it belongs to ------------------------------------------------------------------------------------------
    def names(self, v, ids, loops, held, depth, pre=[]):
        """wherever v is a distance, ids name the two groups it belongs to; held: carried value -> carried names"""
        if depth > 40:
            raise No("too deep")
        if infinite(v):
            return
        for k in (0, 2):
            c = tobool(ids[k])
            if c.op in ("lt", "le", "lei", "eq", "not", "and", "or") and not any(x in held for x in outer(c)):
                for s in (c, lnot(c)):
                    if not dead(pre + [s]):
                        f = lambda x: subst(under(x, s), {s: TRUE, lnot(s): FALSE})
                        self.names(f(v), [f(i) for i in ids], loops, held, depth + 1, pre + [s])
                return
        self.names2(v, ids, pre, loops, held, depth)

    def names2(self, v, ids, pre, loops, held, depth):
        for vs, cs in expand(ids, pre, 8):
            self.names1(v, vs, cs, loops, held, depth)

    def truth(self, kind, cs, held):
        if kind.op in ("lt", "le", "lei", "eq", "not", "and", "or"):
            if known(cs, [kind]):
                return TRUE
            if known(cs, [lnot(kind)]):
                return FALSE
        return kind

    def names1(self, v, ids, cs, loops, held, depth):
        for c in cs:
            v = under(v, c)
        ids = [self.truth(i, cs, held) if k in (0, 2) else i for k, i in enumerate(ids)]
        if v.op == "ite":
            c = v.args[0]
            for s, x in ((c, v.args[1]), (lnot(c), v.args[2])):
                if not dead(cs + [s]):
                    self.names1(under(x, s), [under(i, s) for i in ids], cs + [s], loops, held, depth + 1)
            return
        if v.op == "fn" and v.args[0] == "min":
            xs = v.args[1:]
            least = [x for x in xs if known(cs, [le(x, y) for y in xs if y is not x])]
            why = None
            for x in least:
                try:
                    self.names1(x, ids, cs, loops, held, depth + 1)
                    return
                except No as e:
                    why = e
            if why:
                raise why
            if depth > 30:
                raise No("cannot tell which is least")
            x, y = xs[0], xs[1]
            for c in (le(x, y), lt(y, x)):
                if not dead(cs + [c]):
                    self.names1(v, ids, cs + [c], loops, held, depth + 5)
            return
        if infinite(v):
            return
        if v in held:
            want = held[v]
            if list(ids) != list(want):
                raise No("keeps a distance with other names: %s" % ", ".join(show(i)[:40] for i in ids))
            return
        if v.op == "fold" and not self.ismax(v):
            L, p0, H, ev = v.args
            start = [i.args[1] if i.op == "fold" and i.args[0] is L else i for i in ids]
            hids = [i.args[2] if i.op == "fold" and i.args[0] is L else i for i in ids]
            nids = [i.args[3] if i.op == "fold" and i.args[0] is L else i for i in ids]
            if not infinite(p0):
                self.names(p0, start, loops, held, depth + 1)
            self.names(ev, nids, loops + [(L, H)], dict(held, **{}) | {H: hids}, depth + 1)
            return
        names, _, _ = self.option(loops_of(self, v, loops), [], v)
        for (k, x, _), kind, n in zip(names, (ids[0], ids[2]), (ids[1], ids[3])):
            n = n.args[2] if n.op == "fn" and n.args[0] == "narrow" else n
            isgroup = tobool(kind)
            if isgroup is not (TRUE if k == "group" else FALSE) and isgroup not in ((ONE,) if k == "group" else (ZERO,)):
                raise No("names %s %s a %s" % (k, show(x)[:30], show(kind)[:60]))
            if n is not x:
                raise No("names %s instead of %s" % (show(n)[:60], show(x)[:60]))


def threads(n):
    return n.op == "fn" and n.args[0] in ("omp_get_num_threads", "omp_get_max_threads")


def loops_of(self, v, loops):
    """the loops whose counters v uses"""
    s = subterms(v)
    return [(L, H) for L, H in loops if self.iv(L) in s]


def ge0(t):
    return le(ZERO, t, True)


def split(L, x0, h, ev, shape=None):
    """the running value of a record: a record of running values"""
    shape = shape or x0
    if shape.op != "rec":
        return mk("fold", L, x0, h, ev)
    return rec({n: split(L, fld(x0, n), fld(h, n), fld(ev, n), s) for n, s in shape.args})


# -- rounds of merging -------------------------------------------------------------------------------------------------
B1, N1, B2, N2, D = [mk("s", "closest", x) for x in ("group1", "name1", "group2", "name2", "distance")]


SOME = land(le(ZERO, N1, True), le(ZERO, N2, True), lnot(eq(D, lit("+inf"))))
NONE = land(eq(N1, num(-1)), eq(N2, num(-1)), tobool(B1), tobool(B2), eq(D, lit("+inf")))


def merges(F, f):
    seen = []

    def hk(it, st, fr, e, q, oloc, args):
        seen.append([it.argv(st, a) for a in args])
        ids = rec({"first": rec({"first": tobool(B1), "second": N1}), "second": rec({"first": tobool(B2), "second": N2})})
        return rec({"first": ids, "second": D})

    def dm(it, st, fr, e, q, oloc, args):
        if "Matrix" in e.get("t", "") or True:
            return mk("fn", "matrix", *[it.argv(st, a) for a in args])

    F.ctx.analysed(f)
    fn_ = "Matrix" not in f["params"][1]["t"]
    it = I.Interp(F.prog, hooks={NS + "GetClosestPair": hk, "arc_helpers::BuildDistanceMatrixSerial": dm, "arc_helpers::BuildDistanceMatrixParallel": dm})
    it.run(f, args=[A(0), A(1), A(2), A(3)])
    data, limit, strategy = A(0), A(2), A(3)
    own = [(L, i) for L, i in it.loopinfo.items() if any(D in subterms(c[1]) for c in i["carried"].values()) and "H" in str(L.args[0]) or L.args[0] == "w"]
    own = [(L, i) for L, i in own if any(D in subterms(c[1]) for c in i["carried"].values())]
    if len(own) != 1 or not seen:
        F.ob(f, "rounds", "%d loops" % len(own), "does not merge in rounds")
        return
    L, info = own[0]
    mask, dist, groups, strat = seen[-1]
    want = fn("matrix", data, A(1)) if fn_ else A(1)
    F.ob(f, "distances", None if dist is want else show(dist)[:200], "does not measure with the distances given")
    F.ob(f, "strategy", None if strat is strategy else show(strat)[:200], "does not link as asked for")
    car = info["carried"]
    if mask not in car or groups not in car:
        F.ob(f, "rounds", "searches %s, %s" % (show(mask)[:80], show(groups)[:80]), "does not search what is left")
        return
    m0, m1, _ = car[mask]
    g0, g1, _ = car[groups]
    ok = m0.op == "seq" and len(m0.args) == 1 and m0.args[0][0] == "rep" and m0.args[0][1] is size(data) and m0.args[0][2] is ZERO and size(g0) is ZERO
    F.ob(f, "start", None if ok else "%s; %s" % (show(m0)[:80], show(g0)[:80]), "does not start with every item on its own")
    cond = info.get("cond")
    cond = TRUE if cond is None else cond
    new = {h: v[1] for h, v in car.items()}
    after = subst(cond, new)
    brk = info.get("brk")
    # the pair found: both names are there, or neither is
    some, none = SOME, NONE
    within_ = le(D, limit)
    rounds(F, f, mask, groups, m1, g1, within_, [lnot(brk)] if brk is not None else [], limit)
    # going on and stopping
    start = {h: v[0] for h, v in car.items()}
    facts = [x for x in (info.get("bstate").facts if info.get("bstate") is not None else [])]
    stop = lnot(after) if brk is None else brk
    F.ob(f, "runs", None if info["kind"] == "do" or brk is not None or subst(cond, start) in (TRUE, ONE) else show(cond)[:100], "may end before looking for a pair")
    asserted = [e_ for e_ in it.events if e_.kind == "assert" and B1 in subterms(land(*e_.facts)) | subterms(e_.d["cond"])]
    okfacts = [lor(le(D, limit), lt(limit, D))]
    F.ob(f, "stops only at the limit", None if never([stop, cond, within_, some]) else show(stop)[:200], "may end while two groups are within the limit")
    go = after if brk is None else lnot(brk)
    F.ob(f, "stops at the limit", None if never([go, cond, lt(limit, D), some]) else show(go)[:200], "may go on when no two groups are within the limit")
    F.ob(f, "stops at the end", None if never([go, cond, none]) else show(go)[:200], "may go on when no pair is left")
    for e_ in asserted:
        fs = [x for x in e_.facts]
        F.ob(f, "needs a pair", None if never(fs + [SOME]) and never(fs + [NONE]) else "line %s" % e_.ln, "asserts that a pair was found when there may be none")
    result(F, f, it, L, mask, groups, data, info)


def never(fs):
    fs = [g for f in fs for g in conj(f)]
    return dead(fs) or proved(fs, FALSE)


def rounds(F, f, mask, groups, m1, g1, within_, pre, limit):
    one = lambda v: not (v is ZERO) and isc(v)
    got = set()
    flat_ = lambda t: subst(t, {tobool(B1): TRUE, tobool(B2): TRUE, N1: num(-1), N2: num(-1)})
    for (m, g), cs in expand([flat_(m1), flat_(g1)], [], 12):
        if (m is not mask or g is not groups) and not never(list(cs) + [flat_(x) for x in pre] + [eq(D, lit("+inf"))]):
            F.ob(f, "keeps", "%s; %s" % (show(m)[:100], show(g)[:100]), "merges although no pair is left")
    for (m, g), cs in expand([m1, g1], list(conj(SOME)) + [y for x in pre for y in conj(x)], 12):
        if contra(cs) or dead(cs):
            continue
        g = appended(F, g)
        unchanged = m is mask and g is groups
        cs = list(cs)
        if not unchanged and not never(cs + [lt(limit, D)]):
            F.ob(f, "keeps", " and ".join(show(c) for c in cs)[:200], "changes the groups although no two are within the limit")
            continue
        if unchanged:
            if never(cs + [within_]):
                continue
            F.ob(f, "merges within", "if %s" % " and ".join(show(c) for c in cs)[:200], "may not merge two groups within the limit")
            continue
        kinds = [TRUE if proved(cs, tobool(b)) else FALSE if proved(cs, lnot(tobool(b))) else None for b in (B1, B2)]
        # masked items
        masked = set()
        mm = m
        while mm.op == "astore":
            if not one(mm.args[2]):
                masked.add("unmasked")
            masked.add(mm.args[1])
            mm = mm.args[0]
        if mm is not mask:
            masked.add("other")
        want = {n for n, k in ((N1, kinds[0]), (N2, kinds[1])) if k is FALSE}
        name = {(FALSE, FALSE): "two items", (TRUE, TRUE): "two groups", (FALSE, TRUE): "an item and a group", (TRUE, FALSE): "an item and a group"}.get(tuple(kinds))
        if name is None:
            F.ob(f, "cases", " and ".join(show(c) for c in cs)[:200], "does not tell items from groups")
            continue
        got.add(name)
        F.ob(f, name + ": marks", None if masked == want else ", ".join(str(x) if isinstance(x, str) else show(x) for x in masked)[:200] or "nothing", "does not mark exactly the items that joined a group")
        item = lambda n: [("item", n)]
        if kinds == [FALSE, FALSE]:
            ok = g.op == "seq" and len(g.args) == 2 and g.args[0] == ("all", groups) and g.args[1][0] == "item" and g.args[1][1].op == "seq" and sorted(map(str, g.args[1][1].args)) == sorted(map(str, [("item", N1), ("item", N2)]))
        elif kinds == [TRUE, TRUE]:
            ok = False
            for x, y in ((N1, N2), (N2, N1)):
                both = [seq([("all", sel(groups, a)), ("all", sel(groups, b))]) for a, b in ((x, y), (y, x))]
                for b in both:
                    for emp in (seq([]),):
                        ok = ok or g in (mk("astore", mk("astore", groups, x, b), y, emp), mk("astore", mk("astore", groups, y, emp), x, b))
        else:
            c, i = (N1, N2) if kinds[0] is TRUE else (N2, N1)
            v = seq([("all", sel(groups, c)), ("item", i)])
            v2 = seq([("item", i), ("all", sel(groups, c))])
            ok = g in (mk("astore", groups, c, v), mk("astore", groups, c, v2))
        F.ob(f, name + ": merges", None if ok else show(g)[:300], "does not merge exactly the closest pair")
    F.ob(f, "cases", None if len(got) == 3 else ", ".join(sorted(got)), "does not merge every kind of pair")


def appended(F, g):
    """members of one group added one by one to another, as a whole (the two of a pair are different groups)"""
    def one(x):
        L, p0, H, ev = x.args
        if L.op != "loop" or isinstance(L.args[0], str) or L.args[0] is not ZERO or L.args[2] is not ONE:
            return x
        for a, b in ((N1, N2), (N2, N1)):
            h = sel(H, b)
            iv = mk("s", "iv", L.args[3], *L.args[:3])
            if L.args[1] is size(h) and ev is mk("astore", H, a, seq([("all", sel(H, a)), ("item", sel(h, iv))])):
                return mk("astore", p0, a, seq([("all", sel(p0, a)), ("all", sel(p0, b))]))
        return x

    if g.op == "astore":
        return mk("astore", appended(F, g.args[0]), *g.args[1:])
    return one(g) if g.op == "fold" else g


def result(F, f, it, L, mask, groups, data, info):
    r = it.result
    gone = {}
    if info.get("brk") is not None and info.get("cond") in (None, TRUE, ONE):
        # left by a break only
        gone = {x: TRUE for x in subterms(r) if x.op == "b" and x.args[0].op == "exists" and x.args[0].args[0] is L}
        r = subst(r, gone) if gone else r
    loopinfo = {subst(l, gone) if gone else l: i for l, i in it.loopinfo.items()}
    counter = lambda l: subst(loopinfo[l]["iv"], gone) if gone else loopinfo[l]["iv"]
    cl, d = fld(r, "first"), fld(r, "second")
    # the final mask and groups
    fin = {}
    for x in subterms(r):
        if x.op == "fold" and x.args[0] is L:
            fin[x.args[2]] = x
    M, G = fin.get(mask, mask), fin.get(groups, groups)
    okd = d is D or d.op == "fold" and d.args[0] is L and d.args[3] is D
    F.ob(f, "distance", None if okd else show(d)[:200], "does not return the distance of the closest pair left")
    got = []
    if cl.op != "seq":
        F.ob(f, "result", show(cl)[:200], "does not list the groups")
        return
    for pc, loops, p in walk(cl.args):
        if len(loops) != 1 or loops[0].args[0] is not ZERO or loops[0].args[2] is not ONE or p[0] != "item":
            got.append("other")
            continue
        li = loopinfo.get(loops[0])
        if li is None or li.get("brk") is not None:
            got.append("other")
            continue
        iv = counter(loops[0])
        x = p[1]
        if loops[0].args[1] in (size(G), size(groups)):
            mem = sel(G if loops[0].args[1] is size(G) else groups, iv)
            ok = x.op == "seq" and len(x.args) == 1 and x.args[0][0] == "loop"
            if ok:
                _, M2, parts = x.args[0][:3]
                l2 = loopinfo.get(M2)
                ok = l2 is not None and l2.get("brk") is None and M2.args[0] is ZERO and M2.args[1] is size(mem) and M2.args[2] is ONE and list(parts) == [("item", sel(data, sel(mem, counter(M2))))]
            nonempty = lt(ZERO, size(mem), True)
            ok = ok and (not pc or proved([nonempty], land(*pc))) and proved(list(pc) + [ge0(size(mem))], nonempty)
            got.append("groups" if ok else "other")
        elif loops[0].args[1] in (size(M), size(mask), size(data)):
            free = eq(sel(M if any(x is M for c in pc for x in subterms(c)) else mask, iv), ZERO)
            ok = x.op == "seq" and list(x.args) == [("item", sel(data, iv))] and proved([free], land(*pc)) and proved(list(pc), free)
            got.append("items" if ok else "other")
        else:
            got.append("other")
    F.ob(f, "result", None if sorted(got) == ["groups", "items"] else "lists %s" % ", ".join(got), "does not return every group once and every other item on its own")


def walk(parts, pc=(), loops=()):
    for p in parts:
        if p[0] == "loop":
            yield from walk(p[2], pc, loops + (p[1],))
        elif p[0] == "alt":
            yield from walk(p[2], pc + (p[1],), loops)
            yield from walk(p[3], pc + (lnot(p[1]),), loops)
        else:
            yield pc, loops, p
