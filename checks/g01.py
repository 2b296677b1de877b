"""G01: every edge is recorded at both of its ends, and the linkage check accepts exactly the graphs where that holds."""
from engine import interp as I
from engine.terms import *
from .v01 import where
from .logic import *

ASSUMPTIONS = ["std::vector follows its contract (at() throws outside the range)", "memory allocation succeeds"]
A = lambda i: mk("s", "arg", i)
THIS = mk("var", "this")
NS = "arc_dijkstras::"


def read(t, facts):
    """t with every look-up in a stored array resolved where facts decide which element is meant"""
    def one(y):
        while y.op == "sel" and y.args[0].op == "astore":
            b, i, v = y.args[0].args
            if i is y.args[1] or holds(facts, eq(i, y.args[1])):
                y = v
            elif holds(facts, lnot(eq(i, y.args[1]))):
                y = sel(b, y.args[1])
            else:
                break
        return y
    for _ in range(40):
        m = {}
        for x in subterms(t):
            if x.op == "sel" and x.args[0].op == "astore":
                y = one(x)
                if y is not x:
                    m[x] = y
        # innermost first, so that what remains is still found in the result
        m = {x: y for x, y in m.items() if not any(z is not x and z in m for z in subterms(x))}
        if not m:
            break
        t = subst(t, m)
    return t


def rng(i, n):
    return [le(ZERO, i, True), lt(i, n, True)]


def run(ctx):
    prog = ctx.program("graph")
    ctx.rule("each way of adding an edge, run on an arbitrary graph, changes exactly the out list of one end and the in list of the other, by the same edge; "
             "the linkage check, summarised as a quantified condition, is equivalent to the pairing of the lists")
    acc = Acc(ctx, prog)
    byq = lambda q, n=None: [f for f in prog.funcs if f["q"] == NS + q and (n is None or len(f["params"]) == n)]
    E = lambda e, g: acc(e, NS + "GraphEdge", g)
    N = lambda x, g: acc(x, NS + "GraphNode", g)
    G = lambda x: acc(x, NS + "Graph", "getNodes")
    edge = ("getFromIndex", "getToIndex", "getWeight", "getValidity")
    node = ("getInEdges", "getOutEdges", "getDistance", "getValue")
    g0 = mk("s", "graph")

    def go(f, **kw):
        st = I.State()
        st.store[THIS] = kw.pop("obj", g0)
        it = I.Interp(prog, **kw)
        it.run(f, st=st)
        ctx.analysed(f)
        return it

    def same(x, y, getters, get, but=()):
        return [g for g in getters if g not in but and get(x, g) is not get(y, g)]

    # ---- plain objects: what is put in is what is read
    e0, n0 = mk("s", "edge"), mk("s", "node")
    for f in byq("GraphEdge::GraphEdge", 3):
        it = go(f, obj=mk("new", mk("t", "e")))
        o = it.state.store[THIS]
        ok = E(o, "getFromIndex") is A(0) and E(o, "getToIndex") is A(1) and E(o, "getWeight") is A(2)
        ctx.ob("edge construction", ok, where(f), "an edge does not hold the endpoints and weight it is given", show(o)[:200])
    for cls, getters, get, o0 in (("GraphEdge", edge, E, e0), ("GraphNode", node, N, n0)):
        for f in [f for f in prog.funcs if f["q"].startswith(NS + cls + "::") and f["kind"] == "method" and not f["mstatic"] and f["acc"] == 0]:
            nm = f["q"].split("::")[-1]
            if nm.lower().startswith(("serialize", "deserialize", "print", "operator")):
                continue
            it = go(f, obj=o0)
            if it.state.dead:
                continue
            o = it.state.store.get(THIS, o0)
            tgt = {"set" + g[3:]: g for g in getters}
            if nm in tgt and len(f["params"]) == 1:
                ctx.ob("%s::%s(%d) sets" % (cls, nm, f["ln"]), get(o, tgt[nm]) is A(0), where(f), "%s does not keep the value it is given" % nm, show(get(o, tgt[nm]))[:200])
                ctx.ob("%s::%s(%d) rest" % (cls, nm, f["ln"]), not same(o, o0, getters, get, tgt[nm]), where(f), "%s changes something else too" % nm, show(o)[:200])
            elif nm in ("addInEdge", "addOutEdge", "addEdgePair"):
                new = {"addInEdge": {"getInEdges": A(0)}, "addOutEdge": {"getOutEdges": A(0)}, "addEdgePair": {"getInEdges": A(0), "getOutEdges": A(1)}}[nm]
                for g in getters:
                    want = get(o0, g)
                    if g in new:
                        want = seq([("all", want), ("item", new[g])])
                    ctx.ob("%s::%s(%d) %s" % (cls, nm, f["ln"], g), get(o, g) is want, where(f), "%s does not append exactly the edge it is given" % nm, show(get(o, g))[:200])
            else:
                ctx.ob("%s::%s(%d) keeps" % (cls, nm, f["ln"]), o is o0 or not same(o, o0, getters, get), where(f), "%s changes the recorded data" % nm, show(o)[:200])
    for f in [f for f in byq("GraphNode::GraphNode") if f["params"]]:
        it = go(f, obj=mk("new", mk("t", "n")))
        o = it.state.store[THIS]
        ps = f["params"]
        ok = N(o, "getValue") is A(0)
        if len(ps) == 1:
            empty = lambda x: size(x) is ZERO or x.op == "fld" and x.args[0].op == "new"
            ok = ok and empty(N(o, "getInEdges")) and empty(N(o, "getOutEdges"))
        elif len(ps) == 4:
            ok = ok and N(o, "getInEdges") is A(2) and N(o, "getOutEdges") is A(3) and N(o, "getDistance") is A(1)
        if len(ps) in (1, 4) and "GraphNode" not in ps[0]["t"]:
            ctx.ob("node construction %d" % len(ps), ok, where(f), "a node does not hold what it is given", show(o)[:200])
    # ---- look-ups
    for f in byq("GraphNode::getEdgeTo", 1):
        it = go(f, obj=n0)
        r, facts = it.result, list(it.state.facts)
        outs = N(n0, "getOutEdges")
        for x in facts:
            r = dunder(r, x)
        for (v,), cs in cases([r]):
            ok = v.op == "sel" and v.args[0] is outs and proved(facts + list(cs) + skolem(facts + list(cs)), eq(E(v, "getToIndex"), A(0)))
            ctx.ob("getEdgeTo(%d)" % f["ln"], ok, where(f), "returns an edge that does not lead to the node asked for", show(v)[:200])
        bad = [e for e in it.events if e.kind in ("throw", "noret")]
        ctx.ob("getEdgeTo(%d) fails" % f["ln"], bool(bad) and not it.state.dead, where(f), "does not fail when there is no such edge")
        for e in bad:
            hit = [x for x in atoms(e.facts) if x.op == "not" and "exists" in show(x)]
            ctx.ob("getEdgeTo(%d) only then" % f["ln"], bool(hit), where(f), "fails although there may be such an edge", str([show(x) for x in e.facts])[:200])
    for f in byq("Graph::getEdge", 2):
        it = go(f, opaque=[NS + "GraphNode::getEdgeTo"])
        want = calls(it, "getEdgeTo")
        ok = len(want) == 1 and want[0][0] is sel(G(g0), A(0)) and want[0][1] is A(1)
        ctx.ob("getEdge(%d)" % f["ln"], ok, where(f), "looks up another edge than from the first to the second node", show(it.result)[:200])
    for f in byq("Graph::getReverseEdge", 1):
        it = go(f, opaque=[NS + "GraphNode::getEdgeTo"])
        want = calls(it, "getEdgeTo")
        ok = len(want) == 1 and want[0][0] is sel(G(g0), E(A(0), "getToIndex")) and want[0][1] is E(A(0), "getFromIndex")
        ctx.ob("getReverseEdge(%d)" % f["ln"], ok, where(f), "looks up another edge than the one back", show(it.result)[:200])
    # ---- adding nodes
    nodes0 = G(g0)
    for f in byq("Graph::addNode", 1):
        it = go(f)
        o = it.state.store.get(THIS, g0)
        ns = parts_of(G(o))
        ok = len(ns) == 2 and ns[0] == ("all", nodes0) and ns[1][0] == "item"
        ctx.ob("addNode(%d) appends" % f["ln"], ok, where(f), "adding a node disturbs the existing nodes", show(G(o))[:200])
        if ok:
            x = ns[1][1]
            given = x is A(0) or N(x, "getValue") is A(0) and all(size(N(x, g)) is ZERO or N(x, g).op == "fld" and N(x, g).args[0].op == "new" for g in ("getInEdges", "getOutEdges"))
            ctx.ob("addNode(%d) node" % f["ln"], given, where(f), "adds another node than the one given", show(x)[:200])
        ctx.ob("addNode(%d) index" % f["ln"], it.result is size(nodes0), where(f), "does not report the index of the node it added", show(it.result)[:200])
    # ---- adding edges
    k = mk("s", "k")
    i, j, w = A(0), A(1), A(2)
    for name in ("addEdgeBetweenNodes", "addEdgesBetweenNodes"):
        both = name == "addEdgesBetweenNodes"
        fs = byq("Graph::" + name, 3)
        ctx.need(fs, "Graph::" + name)
        for f in fs:
            it = go(f)
            o = it.state.store.get(THIS, g0)
            X = G(o)
            tag = "%s(%d)" % (name, f["ln"])
            ctx.ob(tag + " works", not it.state.dead and o is not g0, where(f), "never adds an edge")
            if it.state.dead or o is g0:
                continue
            facts = list(it.state.facts)
            loop = [x for x in skolem(facts)]
            ats = [e for e in it.events if e.kind == "index" and e.at and set(e.facts) <= set(facts) and not e.loops]
            inr = []
            for e in ats:
                if e.base is nodes0:
                    inr += rng(e.idx, size(nodes0))
            for a, what in ((i, "first"), (j, "second")):
                ctx.ob(tag + " %s exists" % what, proved(facts + inr, land(*rng(a, size(nodes0)))), where(f), "adds an edge although its %s node does not exist" % what, str([show(x) for x in facts])[:200])
            ctx.ob(tag + " no loop", proved(facts, lnot(eq(i, j))), where(f), "adds an edge from a node to itself", str([show(x) for x in facts])[:200])
            # an edge between two different existing nodes is never refused, so every refusal finds the graph as it was
            for e in it.events:
                if e.kind in ("throw", "noret", "assert"):
                    fc = list(e.facts) + ([lnot(e.cond)] if e.kind == "assert" else []) + [lnot(eq(i, j))] + rng(i, size(nodes0)) + rng(j, size(nodes0))
                    fc = [read(x, fc) for x in fc + lastone(fc)]
                    ctx.ob(tag + " refuses only what does not exist", proved(fc, FALSE), where(f), "refuses an edge between two different existing nodes", str([show(x) for x in e.facts])[:200])
                    if e.kind != "assert" and e.store.get(THIS, g0) is not g0:
                        fc = list(e.facts)
                        fc = [read(x, fc) for x in fc + lastone(fc)]
                        ctx.ob(tag + " refuses cleanly", proved(fc, FALSE), where(f), "refuses an edge after recording part of it", str([show(x) for x in e.facts])[:200])
            first = [e for e in it.events if e.kind == "index" and e.at and e.base is not nodes0]
            for e in first:
                if e.loops:
                    continue
                ok = proved(facts + inr, land(*rng(e.idx, size(nodes0))))
                ctx.ob(tag + " checks first", ok, where(f), "checks an endpoint only after recording part of the edge", show(e.idx))
            ne = [lnot(eq(i, j))]
            want = {"i": ([w], [w] if both else []), "j": ([w] if both else [], [w]), "k": ([], [])}
            mine = {}
            for nm, ix, extra in (("i", i, ne), ("j", j, ne), ("k", k, ne + [lnot(eq(k, i)), lnot(eq(k, j))])):
                fc = facts + extra
                x = read(sel(X, ix), fc)
                old = sel(nodes0, ix)
                for g in ("getDistance", "getValue"):
                    ctx.ob(tag + " %s %s" % (nm, g), read(N(x, g), fc) is N(old, g), where(f), "changes a node's value or distance", show(read(N(x, g), fc))[:200])
                for g, ws, (a, b) in (("getOutEdges", want[nm][0], (ix, j if nm == "i" else i)), ("getInEdges", want[nm][1], (j if nm == "i" else i, ix))):
                    ps = parts_of(read(N(x, g), fc))
                    ok = bool(ps) and ps[0] == ("all", N(old, g)) and [p[0] for p in ps[1:]] == ["item"] * len(ws)
                    what = {"i": "the first node", "j": "the second node", "k": "an unrelated node"}[nm]
                    lst = "outgoing" if g == "getOutEdges" else "incoming"
                    ctx.ob(tag + " %s %s" % (nm, g), ok, where(f), "%s's %s edges do not change by exactly the edges added" % (what, lst), show(read(N(x, g), fc))[:300])
                    if not ok:
                        continue
                    for p, pw in zip(ps[1:], ws):
                        e = read(p[1], fc)
                        ctx.ob(tag + " %s %s endpoints" % (nm, g), E(e, "getFromIndex") is a and E(e, "getToIndex") is b, where(f), "records an edge with other endpoints in %s's %s edges" % (what, lst), show(e)[:200])
                        ctx.ob(tag + " %s %s weight" % (nm, g), E(e, "getWeight") is pw, where(f), "records an edge with another weight in %s's %s edges" % (what, lst), show(E(e, "getWeight"))[:200])
                        mine.setdefault((a, b), []).append(E(e, "getValidity"))
            for (a, b), vs in mine.items():
                ctx.ob(tag + " mirror %s" % show(a), len(vs) == 2 and vs[0] is vs[1], where(f), "records an edge differently at its two ends", str([show(v) for v in vs]))
    # ---- other members leave the lists alone
    for f in [f for f in prog.funcs if f["q"].startswith(NS + "Graph::") and f["kind"] == "method" and not f["mstatic"] and f["acc"] == 0]:
        nm = f["q"].split("::")[-1]
        if nm in ("addNode", "addEdgeBetweenNodes", "addEdgesBetweenNodes") or nm.lower().startswith(("serialize", "deserialize", "print", "operator")):
            continue
        it = go(f)
        o = it.state.store.get(THIS, g0)
        ctx.ob("Graph::%s(%d) keeps" % (nm, f["ln"]), it.state.dead or G(o) is nodes0, where(f), "%s changes the graph" % nm, show(G(o))[:200])
    for f in byq("Graph::indexInRange", 1):
        it = go(f)
        r = tobool(it.result)
        spec = land(*rng(A(0), size(nodes0)))
        ctx.ob("indexInRange", proved([r], spec) and proved([spec], r), where(f), "accepts other indices than those of existing nodes", show(r)[:200])
    for f in byq("Graph::getNode", 1):
        it = go(f)
        ok = it.result is sel(nodes0, A(0)) and any(e.kind == "index" and e.at and e.idx is A(0) and e.base is nodes0 for e in it.events)
        ctx.ob("getNode(%d)" % f["ln"], ok, where(f), "does not give the node asked for, or does not check that it exists", show(it.result)[:200])
    linkage(ctx, prog, go, byq, E, N, nodes0)
    ctx.minimum(60)


def skolem(facts):
    """what holds for the iteration that a positive 'some iteration' fact speaks of"""
    out = []
    for f in atoms(facts):
        if f.op == "b" and f.args[0].op == "exists":
            L, c = f.args[0].args
            out += atoms([c])
            if L.args[0] != "w":
                iv = mk("s", "iv", L.args[3], *L.args[:3])
                out += [le(L.args[0], iv, True), lt(iv, L.args[1], True)]
    return out


def lastone(facts):
    """what a negative 'some iteration' fact says of the last iteration"""
    out = []
    for f in atoms(facts):
        if f.op == "not" and f.args[0].op == "b" and f.args[0].args[0].op == "exists":
            L, c = f.args[0].args[0].args
            if L.args[0] != "w":
                iv = mk("s", "iv", L.args[3], *L.args[:3])
                out.append(lnot(subst(c, {iv: sub(L.args[1], ONE)})))
    return out


def calls(it, name):
    cs = {c for c in subterms(it.result) if c.op in ("call", "fn") and str(c.args[0]).endswith(name)}
    return [(c.args[1], c.args[2]) for c in cs]


def linkage(ctx, prog, go, byq, E, N, nodes0):
    ns = mk("s", "nodes")
    fs = byq("Graph::CheckGraphLinkage", 1)
    ctx.need(fs, "Graph::CheckGraphLinkage")
    for f in fs:
        vec = "vector" in f["params"][0]["t"]
        st = I.State()
        it = I.Interp(prog)
        it.run(f, args=[ns], st=st)
        ctx.analysed(f)
        base = ns if vec else Acc(ctx, prog)(ns, NS + "Graph", "getNodes")
        formula(ctx, f, it.result, base, E, N, "CheckGraphLinkage(%d)" % f["ln"])
    for f in byq("Graph::checkGraphLinkage", 0):
        it = go(f)
        formula(ctx, f, it.result, nodes0, E, N, "checkGraphLinkage(%d)" % f["ln"])
    for f in byq("Graph::Graph", 1):
        if "vector" not in f["params"][0]["t"]:
            continue
        it = go(f, obj=mk("new", mk("t", "g")), opaque=[NS + "Graph::CheckGraphLinkage"])
        o = it.state.store[THIS]
        X = Acc(ctx, prog)(o, NS + "Graph", "getNodes")
        ok = X is A(0) and any("CheckGraphLinkage" in show(x) and x.op != "not" and contains(x, A(0)) for x in atoms(it.state.facts))
        ctx.ob("construction", ok, where(f), "accepts nodes without a positive linkage check", show(X)[:200])


def disj(t):
    """t as alternatives, each (chain of loops, atoms)"""
    if t.op == "or":
        return [d for x in t.args for d in disj(x)]
    if t.op == "b" and t.args[0].op == "exists":
        L, c = t.args[0].args
        return [([L] + ch, a) for ch, a in disj(c)]
    if t.op == "and":
        xs = list(t.args)
        for n, x in enumerate(xs):
            if x.op == "or" or x.op == "b" and x.args[0].op == "exists":
                return [(ch + ch2, a + a2) for ch, a in disj(x) for ch2, a2 in disj(land(*(xs[:n] + xs[n + 1:])))]
        return [([], xs)]
    return [([], [t])]


def formula(ctx, f, r, ns, E, N, tag):
    w = where(f)
    bad = lnot(tobool(r))
    n = size(ns)
    groups = {}
    for ch, ats in disj(bad):
        if any(a is FALSE for a in ats):
            continue
        groups.setdefault(tuple(ch), []).append(ats)
    seen = {}
    for ch, alts in groups.items():
        ok = len(ch) == 2 and all(L.args[0] is ZERO and L.args[2] is ONE for L in ch) and ch[0].args[1] is n
        ctx.ob(tag + " shape", ok, w, "rejects a graph for something else than one of its edges", " / ".join(show(L) for L in ch)[:200])
        if not ok:
            continue
        x = mk("s", "iv", ch[0].args[3], *ch[0].args[:3])
        y = mk("s", "iv", ch[1].args[3], *ch[1].args[:3])
        me = sel(ns, x)
        for side, own, other, mine, far in (("in", "getInEdges", "getOutEdges", "getToIndex", "getFromIndex"), ("out", "getOutEdges", "getInEdges", "getFromIndex", "getToIndex")):
            if ch[1].args[1] is size(N(me, own)):
                seen[side] = 1
                e = sel(N(me, own), y)
                a, b = E(e, mine), E(e, far)
                base = rng(x, n) + rng(y, size(N(me, own)))
                D = lor(*[land(*ats) for ats in alts])
                # the search for the mirror
                P = mk("b", mk("s", "mirror", side))
                m = {}
                flist = N(sel(ns, b), other)
                for t in subterms(D):
                    if t.op == "exists":
                        L, c = t.args
                        z = mk("s", "iv", L.args[3], *L.args[:3]) if L.args[0] != "w" else None
                        g = sel(flist, z) if z is not None else None
                        good = z is not None and L.args[0] is ZERO and L.args[2] is ONE and L.args[1] is size(flist)
                        if good:
                            hyp = base + rng(b, n) + [eq(a, x), eq(E(g, far), b)] + rng(z, size(flist))
                            spec = eq(E(g, mine), x)
                            good = proved(hyp + [c], spec) and proved(hyp + [spec], c)
                        if good:
                            m[t] = mk("s", "mirror", side)
                D = subst(D, m)
                S = [("existing end", lor(lt(b, ZERO, True), le(n, b, True))), ("own end", lnot(eq(a, x))), ("self loop", eq(a, b)), ("mirror", lnot(P))]
                pre = base
                for k, s in S:
                    h = pre + [s]
                    ctx.ob(tag + " %s: rejects %s" % (side, k), proved(h, D) or proved(h + [lnot(D)], FALSE), w, "accepts a graph with an %s edge that breaks the linkage (%s)" % ("incoming" if side == "in" else "outgoing", k), show(D)[:300])
                    pre = pre + [lnot(s)]
                ctx.ob(tag + " %s: accepts" % side, proved(pre + [D], FALSE), w, "rejects a graph whose %s edges are all linked" % ("incoming" if side == "in" else "outgoing"), show(D)[:300])
                break
        else:
            ctx.ob(tag + " list", False, w, "looks at another list than a node's edges", show(ch[1])[:200])
    for side in ("in", "out"):
        ctx.ob(tag + " covers %s" % side, side in seen, w, "does not look at every node's %s edges" % ("incoming" if side == "in" else "outgoing"))
