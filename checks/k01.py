"""K01: nearest-neighbour queries and distance matrices contain the right distances in the right places."""
from engine import interp as I
from engine.driver import rel
from engine.interp import leaves
from engine.models import LEFT, RIGHT
from engine.terms import *
from .logic import *

ASSUMPTIONS = ["distances are not NaN and the caller's functions are pure", "std::max_element returns a greatest element", "a parallel region has as many threads as omp_get_num_threads said"]
A = lambda i: mk("s", "arg", i)
NS = "arc_helpers::"


def infinite(t):
    return t.op == "lit" and str(t.args[0]) in ("+inf", "inf") or t.op == "fn" and "infinity" in str(t.args[0])


def run(ctx):
    ctx.rule("selection loops keep a list of K whose greatest entry is replaced by exactly the closer candidates; every matrix cell is written with the distance of its row and column")
    for tu in ("near", "nearp"):
        prog = ctx.program(tu)
        found = 0
        for f in prog.funcs:
            n = f["q"][len(NS):] if f["q"].startswith(NS) else ""
            if n in ("GetKNearestNeighborsSerial", "GetKNearestNeighborsParallel"):
                Near(ctx, prog, f, tu).run()
                found += 1
            elif n in ("BuildDistanceMatrixSerial", "BuildDistanceMatrixParallel"):
                Matrix(ctx, prog, f, tu).run()
                found += 1
        ctx.need(found >= 6, "nearest-neighbour queries and distance matrices")
    ctx.minimum(90)


class Base:
    def __init__(self, ctx, prog, f, tu):
        self.ctx, self.prog, self.f, self.ln = ctx, prog, f, f["ln"]
        self.n = f["q"].split("::")[-1] + (" (%d lists)" % (2 if len([p for p in f["params"] if "vector<" in p["t"] and "function" not in p["t"]]) == 2 else 1) if "Matrix" in f["q"] else "") + (" with OpenMP" if tu == "nearp" else "")
        ctx.analysed(f)

    def ob(self, key, ok, msg, detail=""):
        self.ctx.ob("%s: %s" % (self.n, key), ok, "%s:%s %s" % (rel(self.f["file"]), self.ln, self.n), "%s %s" % (self.n, msg), detail)
        return bool(ok)


class Near(Base):
    def run(self):
        it = I.Interp(self.prog)
        it.run(self.f)
        self.it = it
        self.items, self.cur, self.d, self.K = A(0), A(1), A(2), A(3)
        n = size(self.items)
        D = self.D = lambda i: mk("fn", "()", self.d, sel(self.items, i), self.cur)
        none = few = many = 0
        for (v,), cs in cases([it.result]):
            self.ln = self.f["ln"]
            if v is seq(()):
                none += 1
                self.ob("empty only for none", proved(cs, lor(eq(self.K, ZERO), eq(n, ZERO))), "returns nothing although neighbours were asked for", " and ".join(show(c) for c in cs)[:200])
                continue
            j = sym("j")
            e = sel(v, j)
            if fld(e, "first") is j:
                few += 1
                self.ob("all of few", size(v) is n or proved(list(cs) + [le(ZERO, n, True)], eq(size(v), n)), "does not return every item when there are few", show(size(v))[:200])
                self.ob("all only if few", proved(cs, le(n, self.K, True)), "returns every item although there are more than asked for", " and ".join(show(c) for c in cs)[:200])
                self.ob("distance of each", fld(e, "second") is D(j), "pairs an item with another distance than its own", show(fld(e, "second"))[:300])
                continue
            many += 1
            self.ob("selects only from many", proved(list(cs) + [le(ZERO, self.K, True)], le(self.K, n, True)), "selects although there are fewer items than asked for", " and ".join(show(c) for c in cs)[:200])
            self.chosen(v)
        self.ob("returns few and many", few >= 1 and many >= 1, "does not tell apart fewer and more items than asked for")

    def chosen(self, v):
        """v holds the K closest items"""
        if v.op == "fn" and v.args[0] == "filtered":
            c = v.args[2]
            real = [lnot(eq(fld(LEFT, "first"), num(-1)))]
            sane = lor(eq(fld(LEFT, "first"), num(-1)), le(ZERO, fld(LEFT, "first"), True))
            # an unfilled entry has no item and an infinite distance; filled entries have both
            filled = [sane, le(ZERO, fld(LEFT, "first"), True), lnot(eq(fld(LEFT, "first"), num(-1))), lnot(tobool(mk("fn", "isinf", fld(LEFT, "second"))))]
            unfilled = [eq(fld(LEFT, "first"), num(-1)), tobool(mk("fn", "isinf", fld(LEFT, "second")))]
            self.ob("keeps filled entries", proved(filled, c), "drops found neighbours from the result", show(c)[:200])
            self.ob("drops unfilled entries", proved([unfilled[0]], lnot(c)) or proved([unfilled[1]], lnot(c)), "returns entries that are no items", show(c)[:200])
            v = v.args[1]
            filtered = True
        else:
            filtered = False
        if v.op == "fold" and self.prefilled(v.args[1], self.K):
            self.ob("no unfilled entries", filtered, "may return entries that are no items", "")
            L, p0, H, ev = v.args
            self.over_items(L, H)
            self.replacing(H, ev, H, self.it.loopinfo[L]["iv"], self.D(self.it.loopinfo[L]["iv"]), [])
            return
        # merge of per-thread lists
        if self.ob("selection", v.op == "fold" and v.args[1] is seq(()) and v.args[3].op == "fold" and v.args[3].args[1] is v.args[2], "does not select by keeping the closest so far", show(v)[:200]):
            L, p0, H, ev = v.args
            M, _, G, ev2 = ev.args
            h = L.args[1]
            T = [t for t in subterms(ev2) if t.op == "fold" and t is not ev]
            T = [t for t in T if size(t) is h]
            iv, jv = self.it.loopinfo[L]["iv"], self.it.loopinfo[M]["iv"]
            if not self.ob("merges lists", T, "does not merge the threads' lists", show(h)[:200]):
                return
            T = T[0]
            mine = sel(T, iv)
            self.ob("merges every list", L.args[0] is ZERO and L.args[2] is ONE and self.it.loopinfo[L].get("brk") is None, "does not merge every thread's list", show(L)[:200])
            self.ob("merges every entry", M.args[0] is ZERO and M.args[2] is ONE and M.args[1] in (size(mine), self.K) and self.it.loopinfo[M].get("brk") is None, "does not merge every entry of a thread's list", show(M)[:200])
            e = sel(mine, jv)
            self.ln = self.it.loopinfo[M]["ln"]
            self.growing(G, ev2, fld(e, "first"), fld(e, "second"))
            # the lists
            P, q0, Hp, evp = T.args
            self.ln = self.it.loopinfo[P]["ln"] if P in self.it.loopinfo else self.ln
            ok = q0.op == "seq" and len(q0.args) == 1 and q0.args[0][0] == "rep" and self.prefilled(q0.args[0][2], self.K)
            if not self.ob("lists of K", ok, "does not give each thread a list of the size asked for", show(q0)[:200]):
                return
            threads = q0.args[0][1]
            self.over_items(P, Hp)
            i = self.it.loopinfo[P]["iv"]
            tid = {x.args[1] for x in leaves(evp) if x.op == "astore" and x.args[0] is Hp}
            if not self.ob("own list", len(tid) == 1, "does not keep one list per thread", show(evp)[:200]):
                return
            t = list(tid)[0]
            own = t is ZERO and threads is ONE or t.op == "fn" and t.args[0] == "omp_get_thread_num" and threads.op == "fn" and threads.args[0] in ("omp_get_num_threads", "omp_get_max_threads")
            self.ob("a list for each thread", own, "does not have a list for every thread that may write one", "%s of %s" % (show(t), show(threads)))
            self.replacing(Hp, evp, sel(Hp, t), i, self.D(i), [])

    def prefilled(self, p, K):
        if p.op != "seq" or len(p.args) != 1 or p.args[0][0] != "rep" or p.args[0][1] is not K:
            return False
        x = p.args[0][2]
        return fld(x, "first") is num(-1) and infinite(fld(x, "second"))

    def over_items(self, L, H):
        i = self.it.loopinfo[L]
        self.ln = i["ln"]
        self.ob("looks at every item", L.op == "loop" and L.args[0] is ZERO and L.args[1] is size(self.items) and L.args[2] is ONE and i.get("brk") is None, "does not look at every item", show(L)[:200])

    def worst(self, lst):
        """(index, distance) of the entry to be replaced: a greatest by distance"""
        for t in ("max_element",):
            am = mk("fn", t, lst, lt(fld(LEFT, "second"), fld(RIGHT, "second")))
            return am, fld(sel(lst, am), "second")

    def replacing(self, H, ev, lst, first, second, skip):
        am, w = self.worst(lst)
        st = 0
        for (x,), cs in cases([ev]):
            if x is H:
                ok = all(any(holds(s, z) for z in [le(w, second)] + skip) or contra(s) for s in splits(list(cs)))
                self.ob("drops only what is no closer", ok, "drops a candidate that is closer than one it keeps", " and ".join(show(c) for c in cs)[:300])
                continue
            st += 1
            cell = x
            if lst is not H and cell.op == "astore" and cell.args[0] is H and sel(H, cell.args[1]) is lst:
                cell = cell.args[2]
            ok = cell.op == "astore" and cell.args[0] is lst
            if not self.ob("replaces one entry", ok, "does not replace exactly one entry of its list", show(x)[:300]):
                continue
            self.ob("replaces the farthest", cell.args[1] is am, "replaces another entry than the farthest one", show(cell.args[1])[:300])
            val = cell.args[2]
            self.ob("records item and distance", fld(val, "first") is first and fld(val, "second") is second, "records another index or distance than the item's", show(val)[:300])
            self.ob("keeps the closer", proved(cs, le(second, w)), "replaces an entry by a farther item", " and ".join(show(c) for c in cs)[:300])
        self.ob("replaces", st >= 1, "never replaces an entry by a closer item")

    def growing(self, G, ev, first, second):
        skip = [eq(first, num(-1)), tobool(mk("fn", "isinf", second)), lt(first, ZERO, True)]
        am, w = self.worst(G)
        room = lt(size(G), self.K, True)
        push = st = 0
        for (x,), cs in cases([ev]):
            if x is G:
                ok = all(any(holds(s, z) for z in skip) or holds(s, lnot(room)) and holds(s, le(w, second)) or contra(s) for s in splits(list(cs)))
                self.ob("merge drops only what is no closer", ok, "drops a thread's candidate that is closer than one it keeps", " and ".join(show(c) for c in cs)[:300])
                continue
            if x.op == "astore":
                st += 1
                val = x.args[2]
                self.ob("merge replaces the farthest", x.args[0] is G and x.args[1] is am, "replaces another entry than the farthest one", show(x.args[1])[:300])
                self.ob("merge records", fld(val, "first") is first and fld(val, "second") is second, "records another index or distance than the candidate's", show(val)[:300])
                self.ob("merge replaces when full", proved(cs, lnot(room)), "replaces although there is room", " and ".join(show(c) for c in cs)[:300])
                self.ob("merge keeps the closer", proved(cs, le(second, w)), "replaces an entry by a farther item", " and ".join(show(c) for c in cs)[:300])
            else:
                push += 1
                ps = list(pushes(parts_of(x)))
                ok = len(ps) == 2 and ps[0][0] == "all" and ps[0][1] is G and ps[1][0] == "item" and fld(ps[1][1], "first") is first and fld(ps[1][1], "second") is second
                self.ob("merge adds the candidate", ok, "does not add the candidate itself", show(x)[:300])
                self.ob("merge adds while room", proved(cs, room), "keeps more than were asked for", " and ".join(show(c) for c in cs)[:300])
                self.ob("merge adds filled only", proved(cs, lnot(skip[0])) or proved(cs, lnot(skip[2])) or proved(cs, lnot(skip[1])), "keeps an entry that is no item", " and ".join(show(c) for c in cs)[:300])
        self.ob("merges", push >= 1 and st >= 1, "does not merge the threads' candidates")


class Matrix(Base):
    def run(self):
        f = self.f
        it = I.Interp(self.prog)
        it.run(f)
        two = "(2 " in self.n
        x, y, d = A(0), A(1) if two else A(0), A(2) if two else A(1)
        n, m = size(x), size(y)
        r = it.result
        base = r
        while base.op in ("fold", "mapped", "astore"):
            base = base.args[1] if base.op == "fold" else base.args[0]
        ok = base.op == "dyn" and base.args[0] is n and base.args[1] is m or base.op == "fn" and n in base.args and m in base.args
        self.ob("size", ok, "does not have a row and a column for every item", show(base)[:200])
        root = None
        ws = []
        for e in it.events:
            if e.kind == "store" and e.loc.op == "Li" and e.loc.args[1].op == "ij":
                ws.append(e)
        if not self.ob("fills in distances", ws, "writes no distances"):
            return
        i, j = sym("i"), sym("j")
        dom = [le(ZERO, i, True), lt(i, n, True), le(ZERO, j, True), lt(j, m, True)]
        reach = []
        for e in ws:
            self.ln = e.ln
            a, b = e.loc.args[1].args
            ivs = [it.loopinfo[l]["iv"] for l in e.loops]
            if not self.ob("cell of two loops", len(ivs) <= 2 and {a, b} == set(ivs) and not any(it.loopinfo[l].get("brk") is not None for l in e.loops), "writes a cell that is not given by the items it looks at", show(e.loc.args[1])[:200]):
                continue
            mp = {a: i, b: j}
            diag = [eq(i, j)] if a is b else []

            def sb(t):
                # bounds of the inner loop mention the outer one's variable inside their own
                for _ in range(3):
                    t = subst(t, mp)
                return t
            if a is b:
                mp = {a: i}
            facts = [sb(z) for z in e.facts] + diag
            val = sb(e.val)
            dist = mk("fn", "()", d, sel(x, i), sel(y, j))
            good = [dist] + ([mk("fn", "()", d, sel(x, j), sel(x, i))] if not two else [])
            ok = True
            for (v,), cs in cases([val], facts):
                if v in good:
                    continue
                if not two and v is ZERO and all(holds(s, eq(i, j)) or contra(s) for s in splits(list(cs) + dom)):
                    continue
                if not two and v.op == "fn" and v.args[0] == "()" and all(holds(s, eq(i, j)) or contra(s) for s in splits(list(cs) + dom)) and v in [subst(g, {i: j}) for g in good]:
                    continue
                ok = False
            self.ob("distance of row and column", ok, "puts a distance into the cell of other items", show(val)[:300])
            inside = all(holds(s, g) for g in dom for s in splits(facts) if not contra(s))
            self.ob("inside", inside, "may write outside the matrix", " and ".join(show(z) for z in facts)[:300])
            reach.append(land(*facts))
        self.ln = f["ln"]
        left = [s for s in splits(dom + [lnot(c) for c in reach]) if not contra(s) and not impossible(s, i, j)]
        self.ob("every cell", not left, "leaves cells without a distance", " and ".join(show(z) for z in left[0])[:300] if left else "")
        if not two:
            # symmetric: cell (j, i) gets the value cell (i, j) gets
            both = all(any(e.loc.args[1].args[0] is e.loc.args[1].args[1] or e2.loc.args[1].args == e.loc.args[1].args[::-1] and e2.val is e.val and e2.facts == e.facts for e2 in ws) for e in ws)
            self.ob("symmetric", both, "gives mirrored cells different values")


def impossible(s, i, j):
    """i < j and j < i and the like"""
    return holds(s, lt(i, j, True)) and holds(s, lt(j, i, True)) or holds(s, lnot(eq(i, j))) and holds(s, le(i, j, True)) and holds(s, le(j, i, True))
