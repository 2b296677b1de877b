"""G04: the roadmap planner connects states only where allowed, at the right cost, and reports the path it found with its cost."""
from engine import interp as I
from engine import models
from engine.driver import rel
from engine.terms import *
from engine.interp import leaves
from .logic import *

ASSUMPTIONS = ["the caller's functions are pure and distances are not negative", "nearest-neighbour lists hold indices of existing states (K03)", "a distance declared symmetric is",
               "the graph searches return what G02 states", "the walk back along predecessors ends at the goal, where G02 roots it"]
A = lambda i: mk("s", "arg", i)
NS = "simple_prm_planner::SimpleGeometricPrmPlanner::"
GR = "arc_dijkstras::"
KNN = "arc_helpers::GetKNearestNeighbors"
J, NN = sym("neighbour"), sym("nearest")


def calls_in(x, names):
    if isinstance(x, dict):
        if x.get("q") in names:
            return True
        return any(calls_in(v, names) for v in x.values())
    return isinstance(x, (list, tuple)) and any(calls_in(v, names) for v in x)


def roles(f):
    """parameter terms by what they are"""
    r = {}
    for i, p in enumerate(f["params"]):
        t = p["t"]
        r[p["n"]] = A(i)
        if "Graph<" in t and "GraphNode" not in t:
            r["graph"] = A(i)
        elif "function<double" in t:
            r["dist"] = A(i)
        elif "function<bool (const tu::State &, const tu::State &)" in t:
            r["edge"] = A(i)
        elif "function<bool (const tu::State &)" in t:
            r["state ok"] = A(i)
        elif "function<bool ()" in t or "function<bool (void)" in t:
            r["stop"] = A(i)
        elif "function<tu::State" in t:
            r["sample"] = A(i)
    return r


def recorder(name, result):
    def h(it, st, fr, e, q, oloc, args):
        vs = [it.argv(st, a) for a in args]
        it.emit(st, "hook", e, q=name, args=vs, base=(it.read(st, oloc) if oloc is not None else None))
        return result(vs)
    return h


def run(ctx):
    prog = ctx.program("prm")
    ctx.rule("every function of the planner is evaluated with the nearest-neighbour query and the searches as boundaries; edges are compared by who, where and at what cost")
    acc = Acc(ctx, prog)
    mine = [f for f in prog.funcs if f["q"].startswith(NS)]
    ctx.need(mine, "SimpleGeometricPrmPlanner")
    add = [f for f in mine if calls_in(f.get("body"), (KNN + "Serial", KNN + "Parallel"))]
    ctx.need(add, "the function of the planner that looks for neighbours")
    P = Planner(ctx, prog, acc, add[0])
    P.addnode(add[0])
    for f in mine:
        n = f["q"][len(NS):]
        if f is add[0]:
            continue
        if n == "ExtendRoadMap":
            P.extend(f)
        elif n == "BuildRoadMap":
            P.build(f)
        elif n == "UpdateRoadMapEdges":
            P.update(f)
        elif n == "QueryPathMultiStartMultiGoal":
            P.manygoals(f)
        elif "MultiStart" in n:
            P.manystarts(f)
        elif n.startswith(("Query", "LazyQuery")):
            P.single(f, n)
    ctx.minimum(60)


class Planner:
    def __init__(self, ctx, prog, acc, add):
        self.ctx, self.prog, self.acc = ctx, prog, acc
        self.addq = add["q"]
        self.add = add
        self.ar = {k: v.args[1] for k, v in roles(add).items()}
        self.pos = {p["n"]: i for i, p in enumerate(add["params"])}
        self.ext = [f["q"] for f in prog.funcs if f["q"].startswith(NS) and f["acc"] != 0 and f is not add and len(f["params"]) == 2
                    and "Graph<" in f["params"][0]["t"] and "vector<long" in f["params"][1]["t"]]

    def begin(self, f):
        self.f, self.ln = f, f["ln"]
        self.ctx.analysed(f)
        self.r = roles(f)

    def ob(self, key, ok, msg, detail=""):
        n = self.f["q"].split("::")[-1]
        self.ctx.ob("%s: %s" % (n, key), ok, "%s:%s %s" % (rel(self.f["file"]), self.ln, n), "%s %s" % (n, msg), detail)
        return bool(ok)

    def nodes(self, g):
        return self.acc(g, GR + "Graph", "getNodes")

    def value(self, node):
        return self.acc(node, GR + "GraphNode", "getValue")

    # ----------------------------------------------------------- adding a state
    def addnode(self, f):
        self.begin(f)
        g, d, ev = self.r["graph"], self.r["dist"], self.r["edge"]
        state, K = A(0), self.r.get("K")
        K = K if K is not None else [A(i) for i, p in enumerate(f["params"]) if p["t"].replace("const ", "") in ("size_t", "unsigned long")][0]
        bools = [A(i) for i, p in enumerate(f["params"]) if p["t"].replace("const ", "") == "bool"]
        if not self.ob("parameters", len(bools) == 2, "does not say whether distances are symmetric and duplicates wanted"):
            return
        symm, dup = (mk("b", x) for x in bools)
        got = []

        def knn(it, st, fr, e, q, oloc, args):
            fn, items = it.argv(st, args[2]), it.argv(st, args[0])
            got.append((items, it.argv(st, args[1]), models.callite(it, st, e, fn, [("v", sel(items, J)), args[1]]), it.argv(st, args[3]), e.get("ln")))
            return NN

        def edge(both):
            def h(it, st, fr, e, q, oloc, args):
                vs = [it.argv(st, a) for a in args]
                it.emit(st, "edge", e, args=vs, base=it.read(st, oloc))
                if both:
                    it.emit(st, "edge", e, args=[vs[1], vs[0], vs[2]], base=it.read(st, oloc))
                return mk("void")
            return h
        it = I.Interp(self.prog, hooks={KNN + "Serial": knn, KNN + "Parallel": knn, GR + "Graph::addEdgeBetweenNodes": edge(False), GR + "Graph::addEdgesBetweenNodes": edge(True)})
        it.run(f)
        nodes = self.nodes(g)
        n = size(nodes)
        if not self.ob("one neighbour query", len(got) == 1, "does not look up the neighbours of the new state exactly once"):
            return
        items, cur, dt, k, ln = got[0]
        self.ln = ln
        self.ob("neighbours among the old states", items is nodes and cur is state, "does not look for the neighbours of the new state among the states that were there", show(items)[:200])
        self.ob("neighbour count", k is K, "does not look for the number of neighbours asked for", show(k))
        there = self.value(sel(nodes, J))
        to, fro = mk("fn", "()", d, there, state), mk("fn", "()", d, state, there)
        self.ob("neighbour distance", dt is not None and all(x in (to, fro) for x in leaves(dt)), "does not compare states by their distance", show(dt)[:300] if dt is not None else "")
        if dt is None:
            return
        # --- result and the stored state
        end = it.state.store.get(mk("var", "arg", g.args[1]), g)
        new = self.nodes(end)
        item = None
        ps = parts_of(new)
        pl = list(pushes(ps))
        its = [p for p in pl if p[0] == "item"]
        ok = bool(ps) and ps[0] == ("all", nodes) and len(its) == 1 and len(pl) == 2 and not its[0][3]
        self.ln = f["ln"]
        if not self.ob("adds one state", ok, "does not put exactly the new state at the end of the roadmap", show(new)[:300]):
            return
        item, pc = its[0][1], land(*[plain(it, c) for c in its[0][2]])
        self.ob("stores the state", self.value(item) is state, "stores another state than the one given", show(item)[:200])
        for side in ("getInEdges", "getOutEdges"):
            self.ob("starts without " + side[3:], size(self.acc(item, GR + "GraphNode", side)) is ZERO, "a new state starts with edges", show(item)[:200])
        nx = [(v, [plain(it, x) for x in c] + witness(it, c)) for (v,), c in cases([it.result])]
        for v, c in nx:
            if v is n:
                self.ob("returns the new index", proved(c, pc), "returns the index of a state it did not add", show(land(*c))[:200])
                continue
            for q in c:
                v = dunder(v, q)
            idx = [s.args[1] for s in subterms(v) if s.op == "sel" and s.args[0] is NN]
            good = len(idx) == 1 and v is fld(sel(NN, idx[0]), "first")
            self.ob("returns a neighbour", good, "returns something else than a state at distance zero or the new one", show(v)[:200])
            if good:
                self.ob("reuses only equal states", proved(c, land(lnot(dup), eq(fld(sel(NN, idx[0]), "second"), ZERO))), "takes a state at a positive distance for the new one, or reuses one although duplicates are wanted", show(land(*c))[:300])
                self.ob("reuse adds nothing", all(contra(s) for s in splits(list(c) + [pc])), "adds a state and returns another")
        # --- edges
        es = [e for e in it.events if e.kind == "edge"]
        seen = set()
        res = {}
        for e in es:
            self.ln = e.ln
            a, b, w = e.args
            ix = [s.args[1] for s in subterms(mk("tuple", a, b)) if s.op == "sel" and s.args[0] is NN]
            if not self.ob("edge to a neighbour", len(set(ix)) == 1 and len(e.loops) == 1, "adds an edge that does not lead to a neighbour", "%s %s" % (show(a), show(b))):
                continue
            i = ix[0]
            L = e.loops[-1]
            nb = fld(sel(NN, i), "first")
            L = L if isinstance(L, Term) else getattr(L, "d", L)
            self.ob("every neighbour", covers(it, L, i, size(NN)), "does not look at every neighbour", show(L)[:200])
            way = "in" if (a is nb and b is n) else "out" if (a is n and b is nb) else None
            if not self.ob("between new state and neighbour", way, "adds an edge between other states than the new one and its neighbour", "%s %s" % (show(a), show(b))):
                continue
            self.ob("one edge each way", way not in seen, "adds an edge twice")
            seen.add(way)
            at = self.value(sel(nodes, nb))
            ends = {sel(x, nb): sel(nodes, nb) for x in [t.args[0] for t in subterms(mk("tuple", w, land(*e.facts))) if t.op == "sel" and t.args[1] is nb] if x is not nodes}

            def clean(t):
                for _ in range(3):
                    t2 = subst(t, ends)
                    t2 = subst(t2, {fld(sel(NN, i), "second"): subst(dt, {J: nb})})
                    m = {}
                    for s in subterms(t2):
                        if s.op == "fld" and s.args[0].op == "sel" and s.args[0].args[1] is nb and s.args[0].args[0].op == "seq":
                            m[s] = fld(sel(nodes, nb), s.args[1])
                    t2 = subst(t2, m)
                    if t2 is t:
                        break
                    t = t2
                return t
            w = clean(w)
            facts = [clean(x) for x in e.facts]
            v1, v2 = mk("b", mk("fn", "()", ev, at, state)), mk("b", mk("fn", "()", ev, state, at))
            both = mk("fn", "()", d, at, state), mk("fn", "()", d, state, at)
            want, other = both if way == "in" else both[::-1]
            base = [le(ZERO, want), le(ZERO, other)]
            okc = okw = True
            bad = ""
            for s in splits(facts + base):
                if contra(s):
                    continue
                if not (holds(s, v1) or holds(s, v2)):
                    okc, bad = False, " and ".join(show(x) for x in s)[:300]
                x = w
                for (x,), c in cases([w], s):
                    ss = [q for q in splits(list(c))]
                    if not ss or all(contra(q) for q in ss):
                        continue
                    if x is want or x is other and all(holds(q, symm) for q in ss):
                        continue
                    if lnot(symm) in s or not (x is other):
                        okw, bad = False, show(x)[:300]
                    elif not all(holds(q, symm) for q in ss):
                        okw, bad = False, show(x)[:300]
            self.ob("edge %s only if allowed" % way, okc, "connects the new state to a neighbour the edge check did not accept", bad)
            self.ob("edge %s at its distance" % way, okw, "gives the edge %s the new state another weight than the distance along it" % ("into" if way == "in" else "out of"), bad)
            # and every allowed one is added
            dist_ok = le(ZERO, want)
            for v in (v1, v2):
                if any(v in conj(x) or v in list(subterms(x)) for x in facts):
                    need = [v, pc] + [le(ZERO, t) for t in both] + [le(ZERO, i), lt(i, size(NN), True)]
                    need = [clean(x) for x in need]
                    miss = [x for x in facts if x not in [clean(y) for y in conj(pc)] and not proved(need, x) and not all(contra(s) for s in splits(need + dirs(f) + [lnot(x)]))]
                    self.ob("edge %s whenever allowed" % way, not miss, "leaves out an edge that the edge check accepts", show(miss[0])[:300] if miss else "")
                    break
        self.ln = f["ln"]
        self.ob("edges both ways", seen == {"in", "out"}, "does not connect the new state in both directions")

    # ----------------------------------------------------------- growing
    def boundary(self, extra=()):
        hooks = {self.addq: recorder("add", lambda vs: mk("fn", "ADD", *[v for v in vs])),
                 GR + "SimpleDijkstrasAlgorithm::PerformDijkstrasAlgorithm": recorder("dijkstra", lambda vs: sym("DIJ")),
                 GR + "SimpleGraphAstar::PerformAstar": recorder("astar", lambda vs: sym("AST")),
                 GR + "SimpleGraphAstar::PerformLazyAstar": recorder("lazy", lambda vs: sym("AST")),
                 GR + "GraphRandomWalk::PerformRandomWalk": recorder("walk", lambda vs: sym("AST")),
                 "EigenHelpers::CalculateTotalDistance": recorder("total", lambda vs: mk("fn", "TOTAL", *vs))}
        for q in self.ext:
            hooks[q] = lambda it, st, fr, e, q, oloc, args: mk("fn", "EXTRACT", *[it.argv(st, a) for a in args])
        for q in extra:
            hooks[q] = recorder(q.split("::")[-1], lambda vs, q=q: mk("fn", q, *vs))
        return hooks

    def forwarded(self, ev, what):
        """the caller's functions reach the function that adds a state"""
        vs = ev.args
        bad = [k for k in ("dist", "edge", "graph", "K") if k in self.ar and k in self.r and vs[self.ar[k]] is not self.r[k]]
        bools = [i for i, p in enumerate(self.add["params"]) if p["t"].replace("const ", "") == "bool"]
        mine = [A(i) for i, p in enumerate(self.f["params"]) if p["t"].replace("const ", "") == "bool"]
        for n, i in enumerate(bools):
            if n < len(mine) and vs[i] is not mine[n] and not (n == 1 and len(mine) == 1):
                bad.append("flag %d" % n)
        self.ln = ev.ln
        self.ob("passes on for %s" % what, not bad, "does not add a state with the caller's own functions and settings", ", ".join(bad))

    def extend(self, f):
        self.begin(f)
        it = I.Interp(self.prog, hooks=self.boundary())
        it.run(f)
        adds = [e for e in it.events if e.kind == "hook" and e.q == "add"]
        if not self.ob("adds states", len(adds) == 1 and len(adds[0].loops) == 1, "does not add one state per round"):
            return
        e = adds[0]
        s, stop = mk("fn", "()", self.r["sample"]), mk("b", mk("fn", "()", self.r["stop"]))
        good = mk("b", mk("fn", "()", self.r["state ok"], s))
        self.forwarded(e, "a sample")
        self.ob("adds the sample", e.args[0] is s, "adds another state than the one sampled", show(e.args[0])[:200])
        self.ob("adds only valid states", proved(e.facts, good), "adds a state without the state check accepting it", " and ".join(show(x) for x in e.facts)[:300])
        self.ob("adds every valid state", all(proved([good, lnot(stop)], x) for x in e.facts), "drops a state that the state check accepts", " and ".join(show(x) for x in e.facts)[:300])
        L = e.loops[-1]
        L = L if isinstance(L, Term) else getattr(L, "d", L)
        i = it.loopinfo[L]
        self.ln = i["ln"]
        self.ob("runs until told to stop", lnot(i["cond"]) is stop and i.get("brk") is None or i["cond"] is TRUE and i.get("brk") is stop, "does not grow the roadmap until the termination check says so", show(i["cond"])[:200])

    def build(self, f):
        self.begin(f)
        it = I.Interp(self.prog, hooks=self.boundary([NS + "ExtendRoadMap"]))
        it.run(f)
        hs = [e for e in it.events if e.kind == "hook"]
        if len(hs) == 1 and hs[0].q == "ExtendRoadMap":
            e = hs[0]
            want = [A(i) for i in range(len(f["params"]))]
            self.ob("grows an empty roadmap", size(self.nodes(e.args[0])) is ZERO, "does not start from an empty roadmap", show(e.args[0])[:200])
            self.ob("passes on", e.args[1:] == want, "does not pass on the caller's own functions and settings", ", ".join(show(x) for x in e.args[1:])[:200])
        else:
            self.ob("grows an empty roadmap", False, "does not grow its roadmap the way existing ones are extended")

    # ----------------------------------------------------------- refreshing edges
    def update(self, f):
        self.begin(f)
        it = I.Interp(self.prog, opaque=[GR + "Graph::checkGraphLinkage"])
        it.run(f)
        g, d, ev = self.r["graph"], self.r["dist"], self.r["edge"]
        w = self.acc(sym("edge"), GR + "GraphEdge", "getWeight")
        wf = w.args[1] if w.op == "fld" else None
        root = mk("var", "arg", g.args[1])
        m = {}
        for i in it.loopinfo.values():
            for H, (p0, e2, key) in i["carried"].items():
                m[H] = (H, key)
        stores = []
        for e in it.events:
            if e.kind == "store":
                r, path = unroll(e.loc)
                if r is root:
                    stores.append((e, path))
        if not self.ob("touches weights only", stores and all(p and p[-1] == ("f", wf) for _, p in stores), "changes something else than weights, or nothing at all", str([p[-1:] for _, p in stores])[:200]):
            return
        # only weights change: every other field reads as it was given
        sub_ = {}
        for H in m:
            nm = str(H)
            key = m[H][1]
            t = at_key(key, root, g)
            if t is not None:
                sub_[H] = t

        def clean(t):
            for _ in range(4):
                t2 = subst(t, sub_)
                if t2 is t:
                    return t
                t = t2
            return t
        nodes = self.nodes(g)
        infty = [t for t in (mk("lit", "+inf"),)]
        outs, ins = [], []
        for e, path in stores:
            self.ln = e.ln
            p = [(k, clean(x) if isinstance(x, Term) else x) for k, x in path]
            ix = [x for k, x in p if k == "i"]
            if not self.ob("weight of an edge", len(ix) == 2, "writes something that is no edge of a node", str(p)[:200]):
                continue
            node = sel(nodes, ix[0])
            cell = g
            for k, x in p[:-1]:
                cell = fld(cell, x) if k == "f" else sel(cell, x)
            oute, ine = sel(self.acc(node, GR + "GraphNode", "getOutEdges"), ix[1]), sel(self.acc(node, GR + "GraphNode", "getInEdges"), ix[1])
            (outs if cell is oute else ins if cell is ine else []).append((e, ix, cell))
        self.ln = f["ln"]
        if not self.ob("both records", len(outs) == 1 and len(ins) == 1, "does not update each edge where it leaves and where it arrives"):
            return
        e, (i, j), cell = outs[0]
        self.ln = e.ln
        me = self.value(sel(nodes, i))
        to = self.acc(cell, GR + "GraphEdge", "getToIndex")
        there = self.value(sel(nodes, to))
        valid = mk("b", mk("fn", "()", ev, me, there))
        weight = mk("fn", "()", d, me, there)
        val = clean(e.val)
        okw = True
        for (v,), c in cases([val]):
            if holds(c, valid):
                okw = okw and v is weight
            elif holds(c, lnot(valid)):
                okw = okw and infinite(v)
            else:
                okw = False
        self.ob("weight", okw, "does not give an edge its distance where the edge check accepts it and infinity where it does not", show(val)[:300])
        want = [le(ZERO, i), lt(i, size(nodes), True), le(ZERO, j), lt(j, size(self.acc(sel(nodes, i), GR + "GraphNode", "getOutEdges")), True), mk("b", mk("fn", GR + "Graph::checkGraphLinkage", g))]
        free = [clean(x) for x in e.facts]
        miss = [x for x in free if not any(x is y for y in want) and not proved(want, x) and not linkage(x)]
        self.ob("every edge", not miss and all(self.whole(it, l, clean) for l in e.loops), "leaves the weight of an edge as it was", show(miss[0])[:300] if miss else "")
        e, (a, b), cell2 = ins[0]
        self.ln = e.ln
        self.ob("same weight", clean(e.val) is val, "gives the arriving record of an edge another weight than the leaving one", show(clean(e.val))[:300])
        self.ob("at the other end", a is to, "updates the arriving record at another node than the edge leads to", show(a)[:200])
        mine = eq(self.acc(cell2, GR + "GraphEdge", "getFromIndex"), i)
        facts = [clean(x) for x in e.facts]
        self.ob("only its own record", any(x is mine for x in facts) or proved(facts, mine), "updates the record of another edge", " and ".join(show(x) for x in facts)[:300])
        want += [mine, le(ZERO, b), lt(b, size(self.acc(sel(nodes, a), GR + "GraphNode", "getInEdges")), True)]
        miss = [x for x in facts if not any(x is y for y in want) and not proved(want, x) and not linkage(x)]
        self.ob("every record", not miss and all(self.whole(it, l, clean) for l in e.loops), "leaves the arriving record of an edge as it was", show(miss[0])[:300] if miss else "")

    def whole(self, it, L, clean):
        L = L if isinstance(L, Term) else getattr(L, "d", L)
        if L.args[0] is not ZERO or L.args[2] is not ONE or it.loopinfo[L].get("brk") is not None:
            return False
        h = clean(L.args[1])
        return h.op == "fn" and h.args[0] == "size" or L.args[0] is ZERO

    # ----------------------------------------------------------- queries
    def indices(self, t, g):
        """the index list whose states t lists"""
        if t.op == "fn" and t.args[0] == "EXTRACT":
            return t.args[2] if t.args[1] is g else None
        if t.op == "ite":
            a, b = self.indices(t.args[1], g), self.indices(t.args[2], g)
            return ite(t.args[0], a, b) if a is not None and b is not None else None
        ps = parts_of(t)
        if t is seq(()) or not ps:
            return seq(())
        if len(ps) == 1 and ps[0][0] == "loop":
            L = ps[0][1]
            inner = list(pushes(ps[0][2]))
            if len(inner) == 1 and inner[0][0] == "item" and not inner[0][2] and L.args[0] is ZERO and L.args[2] is ONE:
                v = inner[0][1]
                nodes = self.nodes(g)
                for s in subterms(v):
                    if s.op == "sel" and s.args[0] is nodes and v is self.value(s):
                        return unsel(s.args[1], L)
        return None

    def extractor(self):
        for q in self.ext:
            for f in [f for f in self.prog.funcs if f["q"] == q]:
                if getattr(self, "_ext", None):
                    continue
                self._ext = True
                keep = self.f, self.ln, self.r
                self.begin(f)
                it = I.Interp(self.prog)
                it.run(f)
                ix = self.indices(it.result, A(0))
                self.ob("states of the indices", ix is A(1), "does not return the states of the indices in their order", show(it.result)[:300])
                self.f, self.ln, self.r = keep

    def single(self, f, n):
        self.begin(f)
        it = I.Interp(self.prog, hooks=self.boundary())
        it.run(f)
        hs = [e for e in it.events if e.kind == "hook"]
        adds = [e for e in hs if e.q == "add"]
        runs = [e for e in hs if e.q in ("astar", "lazy", "walk")]
        if not self.ob("adds start and goal, then searches", len(adds) == 2 and len(runs) == 1 and hs.index(runs[0]) > max(hs.index(a) for a in adds) and not any(e.loops or e.facts for e in adds + runs), "does not add start and goal and then search once"):
            return
        gi = self.ar["graph"]
        G = adds[0].args[gi]
        self.r["graph"] = self.r["graph"] if G is self.r["graph"] else G
        S = [a for a in adds if a.args[0] is A(0)]
        E = [a for a in adds if a.args[0] is A(1)]
        if not self.ob("start and goal", len(S) == 1 and len(E) == 1, "adds other states than its start and its goal"):
            return
        self.forwarded(S[0], "the start")
        self.forwarded(E[0], "the goal")
        r = runs[0]
        self.ln = r.ln
        ids = [mk("fn", "ADD", *x.args) for x in (S[0], E[0])]
        self.ob("search from start to goal", r.args[0] is G and r.args[1] is ids[0] and r.args[2] is ids[1], "does not search its roadmap from the start to the goal", ", ".join(show(x)[:60] for x in r.args[:3]))
        if r.q == "astar":
            self.ob("search settings", r.args[3] is self.r["dist"], "searches with another heuristic than the distance", show(r.args[3])[:100])
        if r.q == "lazy":
            self.ob("search settings", r.args[3] is self.r["edge"] and r.args[4] is self.r["dist"] and r.args[5] is self.r["dist"], "searches with other functions than the caller's", ", ".join(show(x)[:60] for x in r.args[3:6]))
        self.ob("kind of search", (r.q == "lazy") == n.startswith("Lazy") and (r.q == "walk") == n.endswith("RandomWalk"), "runs another kind of search than it says")
        self.ln = f["ln"]
        path = mk("s", "nothing")
        p, c = fld(it.result, "first"), fld(it.result, "second")
        ix = self.indices(p, G)
        found = sym("AST") if r.q == "walk" else fld(sym("AST"), "first")
        self.ob("path found", ix is found, "does not return the states of the path the search found", show(p)[:300])
        if r.q == "walk":
            self.ob("cost", c.op == "fn" and c.args[0] == "TOTAL" and c.args[1] is p and c.args[2] is self.r["dist"], "does not return the length of the path", show(c)[:200])
        else:
            self.ob("cost", c is fld(sym("AST"), "second"), "does not return the cost the search found", show(c)[:200])
        self.extractor()

    def manystarts(self, f):
        self.begin(f)
        it = I.Interp(self.prog, hooks=self.boundary())
        it.run(f)
        hs = [e for e in it.events if e.kind == "hook"]
        adds = [e for e in hs if e.q == "add"]
        runs = [e for e in hs if e.q == "dijkstra"]
        if not self.ob("adds starts and goal, then searches", len(adds) == 2 and len(runs) == 1 and hs.index(runs[0]) > max(hs.index(a) for a in adds), "does not add the starts and the goal and then search once"):
            return
        G = adds[0].args[self.ar["graph"]]
        self.r["graph"] = G
        starts = A(0)
        E = [a for a in adds if a.args[0] is A(1) and not a.loops]
        S = [a for a in adds if a.loops and a.args[0].op == "sel" and a.args[0].args[0] is starts]
        if not self.ob("starts and goal", len(S) == 1 and len(E) == 1, "adds other states than its starts and its goal"):
            return
        self.forwarded(S[0], "a start")
        self.forwarded(E[0], "the goal")
        L = S[0].loops[-1]
        L = L if isinstance(L, Term) else getattr(L, "d", L)
        self.ob("every start", L.args[0] is ZERO and L.args[1] is size(starts) and L.args[2] is ONE and it.loopinfo[L]["iv"] is S[0].args[0].args[1] and it.loopinfo[L].get("brk") is None, "does not add every start", show(L)[:200])
        sid = mk("fn", "ADD", *S[0].args)
        gid = mk("fn", "ADD", *E[0].args)
        r = runs[0]
        self.ln = r.ln
        self.ob("search from the goal", r.args[0] is G and r.args[1] is gid, "does not search its roadmap from the goal", show(r.args[1])[:100])
        D = sym("DIJ")
        pred, cost = fld(fld(D, "second"), "first"), fld(fld(D, "second"), "second")
        best = self.argmin(it, size(starts), lambda i: sel(cost, subst(sid, {S[0].args[0]: sel(starts, i)})), lambda i: subst(sid, {S[0].args[0]: sel(starts, i)}))
        if not best:
            return
        bd, bi = best
        none = 0
        for (p, c), cs in cases([fld(it.result, "first"), fld(it.result, "second")]):
            isn = any(x.op == "b" and x.args[0].op == "fn" and x.args[0].args[0] == "isinf" for x in cs)
            if p is seq(()):
                none += 1
                self.ob("no way", infinite(c) and self.unreachable(cs, bd, bi), "reports no path where there is one, or at a finite cost", show(c)[:100])
                continue
            self.ob("cost", c is bd, "does not return the cost of the cheapest start", show(c)[:200])
            self.ob("way exists", self.unreachable([lnot(land(*cs))] if cs else [FALSE], bd, bi), "reports a path although no start reaches the goal", show(land(*cs))[:200])
            ix = self.indices(p, G)
            if self.ob("path states", ix is not None, "does not return states of its roadmap in path order", show(p)[:300]):
                self.walk(it, ix, bi, gid, pred)
        self.ob("says when there is none", none == 1, "does not report that no start reaches the goal")
        self.extractor()

    def unreachable(self, cs, bd, bi):
        inf = [mk("b", mk("fn", "isinf", bd)), eq(bi, num(-1)), lt(bi, ZERO, True), lnot(lt(bd, mk("lit", "+inf")))]
        c = land(*cs)
        ok = [x for x in inf] + [lor(inf[2], inf[3]), lor(inf[1], inf[3])]
        return any(c is x for x in ok) or any(x in conj(c) for x in inf) or show(c) in [show(x) for x in ok] or c.op == "or" and all(d in inf for d in c.args)

    def argmin(self, it, n, val, ident):
        """(least value, its identity) of a running minimum over 0..n-1"""
        for L, i in it.loopinfo.items():
            if L.op != "loop" or L.args[0] is not ZERO or L.args[1] is not n or i.get("brk") is not None or i["ln"] is None:
                continue
            iv = i["iv"]
            v, d = val(iv), ident(iv)
            C = {H: x for H, x in i["carried"].items() if x[1] is not None}
            bd = [H for H, (p0, ev, k) in C.items() if infinite(p0)]
            bi = [H for H, (p0, ev, k) in C.items() if p0 is num(-1)]
            if len(bd) != 1 or len(bi) != 1:
                continue
            bd, bi = bd[0], bi[0]
            self.ln = i["ln"]
            ok, why = True, ""
            less = lt(v, bd)
            for (x, y), cs in cases([C[bi][1], C[bd][1]]):
                if y is tmin(bd, v):
                    good = True
                else:
                    good = y is bd if x is bi else y is v
                if x is bi:
                    good = good and (proved(cs, lnot(less)))
                else:
                    good = good and x is d and proved(cs, less if proved(cs, less) else le(v, bd))
                if not good:
                    ok, why = False, "%s %s" % (show(x)[:100], show(y)[:150])
            self.ob("keeps the cheapest", ok, "does not keep the cheapest candidate with its own index", why)
            return mk("fold", L, C[bd][0], bd, C[bd][1]), mk("fold", L, C[bi][0], bi, C[bi][1])
        self.ob("keeps the cheapest", False, "does not compare all candidates by their cost")
        return None

    def walk(self, it, ix, start, goal, pred):
        ls = leaves(ix)
        fo = [x for x in ls if x.op == "fold"]
        if not self.ob("walks the predecessors", len(fo) >= 1 and len({x.args[0] for x in fo}) == 1, "does not follow the predecessors from the start", show(ix)[:200]):
            return
        W, p0, H, ev = fo[0].args
        i = it.loopinfo[W]
        self.ln = i["ln"]
        ok = parts_of(p0) == [("item", start)] or tuple(parts_of(p0)) == (("item", start),)
        self.ob("path begins at the start", ok, "does not begin the path at the cheapest start", show(p0)[:200])
        ps = list(pushes(parts_of(ev)))
        okp = len(ps) == 2 and ps[0][0] == "all" and ps[0][1] is H and ps[1][0] == "item" and not ps[1][2]
        if not self.ob("one step per round", okp, "does not add one state per step", show(ev)[:200]):
            return
        x = ps[1][1]
        cur = [h for h in i["carried"] if h is not H and h in list(subterms(x))]
        if not self.ob("follows a chain", len(cur) == 1, "does not follow the chain of predecessors", show(x)[:200]):
            return
        P = cur[0]
        q0, qe, _ = i["carried"][P]
        qn = dunder(qe, lnot(i["brk"])) if i.get("brk") is not None else qe
        self.ob("first step", subst(x, {P: q0}) is sel(pred, start), "does not step from the start to its predecessor", show(subst(x, {P: q0}))[:200])
        self.ob("next step", subst(x, {P: qn}) is sel(pred, x), "does not step from each state to its predecessor", show(subst(x, {P: qn}))[:200])
        cond, brk = i["cond"], i.get("brk")
        at = eq(x, goal)
        if brk is not None:
            self.ob("ends at the goal", proved([brk], at) and proved([cond, at], brk) if x is P else proved([brk], at), "does not end the path at the goal", show(brk)[:200])
            self.ob("does not end before", all(proved([lnot(cond)], z) for z in [lt(P, ZERO, True)]) or proved([lnot(cond)], eq(P, num(-1))), "may end the path before the goal", show(cond)[:200])
            # the last state is part of the path
            good = all(y is fo[0] or y is ev or y is dunder(ev, brk) or y is H for y in ls)
            if any(y is H for y in ls):
                good = False
            self.ob("keeps the last state", good, "drops the last state of the path", show(ix)[:200])
        else:
            done = eq(P, goal)
            self.ob("ends at the goal", x is not P and proved([cond], lnot(done)) and proved([lnot(cond)], done), "does not end the path at the goal", show(cond)[:200])

    def manygoals(self, f):
        self.begin(f)
        names = [NS + "QueryPathMultiStartSingleGoal", NS + "QueryPathAndAddNodesMultiStartSingleGoal"]
        it = I.Interp(self.prog, hooks=self.boundary(names))
        it.run(f)
        hs = [e for e in it.events if e.kind == "hook"]
        if not self.ob("solves per goal", len(hs) == 1 and len(hs[0].loops) == 1, "does not solve for each goal once"):
            return
        e = hs[0]
        self.ln = e.ln
        L = e.loops[-1]
        L = L if isinstance(L, Term) else getattr(L, "d", L)
        i = it.loopinfo[L]["iv"]
        n = size(A(1))
        self.ob("every goal", L.args[0] is ZERO and L.args[1] is n and L.args[2] is ONE and it.loopinfo[L].get("brk") is None, "does not solve for every goal", show(L)[:200])
        want = [A(0), sel(A(1), i)] + [A(k) for k in range(2, len(f["params"]))]
        self.ob("passes on", list(e.args) == want, "does not solve for the goal with the caller's own functions and settings", ", ".join(show(x)[:40] for x in e.args))
        sol = mk("fn", [q for q in names if q.endswith("::" + e.q)][0], *e.args)
        best = self.argmin(it, n, lambda k: fld(subst(sol, {i: k}), "second"), lambda k: k)
        if not best:
            return
        bd, bi = best
        for (p, c), cs in cases([fld(it.result, "first"), fld(it.result, "second")]):
            s = subst(sol, {i: bi})
            self.ln = f["ln"]
            if p is seq(()):
                self.ob("no way", infinite(c), "reports no path at a finite cost", show(c)[:100])
                cc = land(*cs)
                self.ob("none only if none", self.unreachable(cs, bd, bi), "reports no path although a goal is reached", show(cc)[:300])
            else:
                self.ob("best solution", p is fld(s, "first") and c is fld(s, "second"), "does not return the cheapest goal's path with its cost", show(p)[:200])


def infinite(t):
    return t.op == "lit" and str(t.args[0]) in ("+inf", "inf") or t.op == "fn" and "infinity" in str(t.args[0])


def plain(it, c):
    """c without what only says where the element that exists(..) speaks of is"""
    if c.op != "or":
        return c
    ivs = [it.loopinfo[t.args[0]]["iv"] for t in subterms(c) if t.op == "exists" and t.args[0] in it.loopinfo]
    ivs += [it.loopinfo[t.args[1]]["iv"] for t in subterms(c) if t.op == "fn" and t.args[0] == "exists" and t.args[1] in it.loopinfo]
    out = []
    for d in c.args:
        if any("exists" in (t.op, t.args[0] if t.args else None) for t in subterms(d) if t.args is not None) or not any(i in subterms(d) for i in ivs):
            out.append(d)
    return lor(*out)


def covers(it, L, i, n):
    """the loop runs i over exactly 0..n-1, in whatever order"""
    if L.op != "loop" or it.loopinfo[L].get("brk") is not None:
        return False
    iv = it.loopinfo[L]["iv"]
    lo, hi, st = L.args[:3]
    if i is iv and lo is ZERO and hi is n and st is ONE:
        return True
    return st is num(-1) and sub(i, iv) is sub(sub(n, ONE), lo) and add(sub(lo, hi), ONE) is n


def witness(it, fs):
    """what the element that exists(..) speaks of satisfies"""
    out = []
    for f in atoms(fs):
        t = f.args[0] if f.op == "b" else f
        if t.op == "exists" and t.args[0] in it.loopinfo:
            out += conj(t.args[1])
        elif t.op == "fn" and t.args[0] == "exists":
            out += conj(t.args[2])
    return out


def linkage(x):
    return False


def dirs(f):
    for i, p in enumerate(f["params"]):
        if p["t"].replace("const ", "").split("::")[-1] == "NNDistanceDirection":
            return [lor(eq(A(i), ZERO), eq(A(i), ONE))]
    return []


def unroll(loc):
    path = []
    while loc.op in ("Lf", "Li"):
        path.append(("f" if loc.op == "Lf" else "i", loc.args[1]))
        loc = loc.args[0]
    return (loc.args[0] if loc.op == "Lr" else None), path[::-1]


def unsel(t, L):
    """X such that t is X[iv] and L runs over X"""
    if t.op == "ite":
        a, b = unsel(t.args[1], L), unsel(t.args[2], L)
        return ite(t.args[0], a, b) if a is not None and b is not None else None
    if t.op == "sel":
        return t.args[0]
    return None


def at_key(key, root, g):
    """the value a location had on entry, read from the object g"""
    if isinstance(key, Term):
        return g if key is root else None
    if key[0] is not root:
        return None
    for x in [y for k in key[1:] for y in (k if isinstance(k, tuple) else (k,))]:
        g = fld(g, x) if isinstance(x, str) else sel(g, x)
    return g
