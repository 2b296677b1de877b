"""G03: the nodes of each connected component, and only they, share a number."""
from engine import interp as I
from engine.terms import *
from engine.driver import rel
from .logic import *
from .g02 import inner_of

ASSUMPTIONS = ["the graph is linked (G01) and its edges run both ways", "fewer than 2^32 components", "std::queue follows its contract"]
THIS = mk("var", "this")
NS = "arc_dijkstras::"


def run(ctx):
    prog = ctx.program("graph")
    ctx.rule("the labelling is summarised as nested loops; a node is labelled exactly when first met, is then queued, every edge of a queued node is followed, and each start opens the next number")
    acc = Acc(ctx, prog)
    fs = [f for f in prog.funcs if f["q"] == NS + "Graph::getConnectedComponentsUndirected"]
    ctx.need(fs, "Graph::getConnectedComponentsUndirected")
    for f in fs:
        component(ctx, prog, acc, f)
    ctx.minimum(18)


def component(ctx, prog, acc, f):
    g0 = mk("s", "graph")
    st = I.State()
    st.store[THIS] = g0
    it = I.Interp(prog)
    it.run(f, st=st)
    ctx.analysed(f)
    nodes = acc(g0, NS + "Graph", "getNodes")
    n = size(nodes)
    ln = [f["ln"]]

    def ob(key, ok, msg, detail=""):
        ctx.ob(key, ok, "%s:%s %s" % (rel(f["file"]), ln[0], f["q"].split("::")[-1]), msg, detail)
        return bool(ok)
    ob("graph kept", it.state.store.get(THIS, g0) is g0, "changes the graph")
    r1, r2 = fld(it.result, "first"), fld(it.result, "second")
    # leaving early keeps what was recorded up to then
    cut = [r for r in (r1, r2) if r.op == "ite"]
    if cut:
        lv = list(cases([r1, r2]))
        full = [x for x in lv if all(v.op == "fold" for v in x[0])]
        if len(full) == 1:
            a, b = full[0][0]
            ok = all(x is full[0] or x[0][0] is a.args[2] and x[0][1] is b.args[2] for x in lv)
            ob("leaves early as is", ok, "reports something else than the numbers recorded when it stops early")
            r1, r2 = a, b
    if not ob("summaries", r1.op == "fold" and r2.op == "fold" and r1.args[0] is r2.args[0], "numbers are not the outcome of a pass over the nodes", show(r1)[:200]):
        return
    L0, c0, Hc, evc = r1.args
    _, k0, Hk, evk = r2.args
    info = it.loopinfo[L0]
    ln[0] = info["ln"]
    ob("starts unnumbered", c0.op == "seq" and len(c0.args) == 1 and c0.args[0][0] == "rep" and c0.args[0][1] is n and c0.args[0][2] is ZERO, "does not begin with every node unnumbered", show(c0)[:200])
    ob("count starts at zero", k0 is ZERO, "does not count components from zero", show(k0))
    if not ob("visits nodes", L0.args[0] is ZERO and L0.args[1] is n and L0.args[2] is ONE, "does not look at every node", show(L0)[:200]):
        return
    iv = info["iv"]
    fresh = eq(sel(Hc, iv), ZERO)
    pos = [le(ZERO, sel(Hc, iv), True)]
    new = add(Hk, ONE)
    W = None
    for (vc, vk), cs in cases([evc, evk]):
        if vc is Hc and vk is Hk:
            ob("passes only numbered nodes", all(holds(s, lnot(fresh)) for s in splits(list(cs) + pos)), "passes over a node that has no number", " and ".join(show(c) for c in cs)[:200])
            continue
        ob("starts only at unnumbered nodes", all(holds(s, fresh) for s in splits(list(cs) + pos)), "starts a component at a node that has a number", " and ".join(show(c) for c in cs)[:200])
        ob("next number", vk is new, "does not open the next number for a new component", show(vk)[:200])
        ob("searches", vc.op == "fold" and vc.args[0] in it.loopinfo, "does not search from the start of a component", show(vc)[:200])
        if vc.op == "fold" and vc.args[0] in it.loopinfo:
            W, w0, Hw, evw = vc.args
    if W is None:
        return
    # --- the search from one start
    wi = it.loopinfo[W]
    ln[0] = wi["ln"]
    C = wi["carried"]
    ob("marks the start", w0.op == "astore" and w0.args[0] is Hc and w0.args[1] is iv and w0.args[2] is new, "does not number the node it starts from", show(w0)[:300])
    qs = []
    for H, (p0, ev, key) in C.items():
        if ev is None:
            continue
        ps = list(pushes(parts_of(ev)))
        if ps and ps[0][0] == "all" and ps[0][1].op == "fn" and str(ps[0][1].args[0]).startswith("pop") and ps[0][1].args[1] is H:
            qs.append((H, p0, ps))
    if not ob("work list", len(qs) == 1, "keeps no list of nodes still to expand, or does not take the expanded node from it"):
        return
    Q, q0, ps = qs[0]
    pop = ps[0][1].args[0]
    ob("begins at the start", [p for p in parts_of(q0)] == [("item", iv)], "does not begin the search at the start of the component", show(q0)[:200])
    cond = wi["cond"]
    ob("runs until empty", proved([lnot(cond)], le(size(Q), ZERO, True)) and wi.get("brk") is None, "stops while nodes are still to be expanded", show(cond)[:200])
    leaves = [x for x in inner_of(evw, Hw)]
    ob("labels in the pass", len(leaves) == 1 and leaves[0][0] not in (None, False), "does not look at the edges of every node it takes", show(evw)[:300])
    if len(leaves) != 1 or not leaves[0][0]:
        return
    L, Hm, step, _ = leaves[0]
    li = it.loopinfo[L]
    ln[0] = li["ln"]
    j = li["iv"]
    heads = {"pop": [sel(Q, ZERO), sel(Q, mk("fn", "top"))], "pop_front": [sel(Q, ZERO)], "pop_back": [sel(Q, sub(size(Q), ONE))]}.get(pop, [])
    head = [h for h in heads if L.args[1] is size(acc(sel(nodes, h), NS + "GraphNode", "getOutEdges"))]
    if not ob("every edge", len(head) == 1 and L.args[0] is ZERO and L.args[2] is ONE and li.get("brk") is None, "does not follow every edge of the node it takes from its list", show(L)[:300]):
        return
    edges = acc(sel(nodes, head[0]), NS + "GraphNode", "getOutEdges")
    nb = acc(sel(edges, j), NS + "GraphEdge", "getToIndex")
    unseen = eq(sel(Hm, nb), ZERO)
    pos.append(le(ZERO, sel(Hm, nb), True))
    items = ps[1:]
    ok = len(items) == 1 and items[0][0] == "item" and items[0][3] == [L] and items[0][1] is nb
    ob("queues neighbours", ok, "does not queue exactly the neighbours it looks at", str([show(x[1]) for x in items if x[1] is not None])[:300])
    pc = land(*items[0][2]) if ok else TRUE
    new2 = None
    for (v,), cs in cases([step]):
        if v is Hm:
            ob("leaves only numbered", all(holds(s, lnot(unseen)) for s in splits(list(cs) + pos)), "leaves a neighbour without a number", " and ".join(show(c) for c in cs)[:200])
            ob("queued once", all(contra(list(s)) for s in splits(list(cs) + [pc] + pos)), "queues a neighbour it has met before", show(pc)[:200])
        else:
            ob("numbers only unnumbered", all(holds(s, unseen) for s in splits(list(cs) + pos)), "gives a node another number", " and ".join(show(c) for c in cs)[:200])
            ob("gives the component's number", v.op == "astore" and v.args[0] is Hm and v.args[1] is nb and v.args[2] is new, "gives a neighbour another number than its component's", show(v)[:300])
            ob("queues what it numbers", proved(list(cs) + pos, pc), "numbers a neighbour without following its edges", show(pc)[:200])
    # --- leaving the pass over the nodes early is allowed once every node has a number
    brk, c = info.get("brk"), info["cond"]
    tot = {}
    for H, (p0, ev, key) in info["carried"].items():
        if p0 is not ZERO or ev is None or H in (Hk, iv):
            continue
        good = ev is not H
        for (v,), cs in cases([ev]):
            if v is H:
                good = good and all(holds(s, lnot(fresh)) for s in splits(list(cs) + pos))
                continue
            d = sub(v, H)
            good = good and d.op == "fold" and d.args[0] is W and d.args[1] is ONE
            if good:
                lv = inner_of(d.args[3], d.args[2])
                good = len(lv) == 1 and lv[0][0] is L
                if good:
                    _, h2, s2, _ = lv[0]
                    for (v2, m2), c2 in cases([s2, step]):
                        good = good and (v2 is h2) == (m2 is Hm) and (v2 is h2 or v2 is add(h2, ONE))
        if good:
            tot[H] = 1
    stay = [lt(iv, n, True), le(ZERO, iv, True)]
    stops = [le(n, H, True) for H in tot]
    bad = [s for s in splits(stay + [lnot(c)]) if not contra(s) and not any(holds(s, x) for x in stops)]
    ln[0] = info["ln"]
    ob("looks until all are numbered", not bad, "stops looking for components although nodes may be left without a number", str([show(x) for x in (bad[0] if bad else [])])[:300])
    if brk is not None:
        bad = [s for s in splits(stay + [brk]) if not contra(s) and not any(holds(s, x) for x in stops)]
        ob("breaks off only when all are numbered", not bad, "stops looking for components although nodes may be left without a number", show(brk)[:200])
