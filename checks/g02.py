"""G02: every search keeps cost, predecessor and queue in step, and drops a candidate only for a reason."""
from engine import interp as I
from engine.driver import rel
from engine.terms import *
from .v01 import where
from .logic import *

ASSUMPTIONS = ["exact arithmetic", "std::priority_queue and the unordered containers follow their contracts", "the caller's functions are pure"]
A = lambda i: mk("s", "arg", i)
EXTRACT = "arc_helpers::ExtractAstarResult"


def top(h):
    return [t for t in [sel(h, mk("lit", "top()"))]]


def isinf(t):
    return t.op == "lit" and t.args[0] in ("+inf", "inf") or "infinity" in show(t) or show(t) == "'+inf'"


def root(m):
    while m.op == "astore" or m.op == "fn" and m.args[0] == "erased":
        m = m.args[0] if m.op == "astore" else m.args[1]
    return m


from engine.models import haskey


def lookups(fs, key):
    for f in fs:
        for s in subterms(f):
            if s.op == "sel" and s.args[1] is key:
                yield s


class Search:
    def __init__(self, ctx, it, f, name):
        self.ctx, self.it, self.f, self.name = ctx, it, f, name
        self.W = None
        for d, i in it.loopinfo.items():
            if i["kind"] == "while" and d.args[2] is ZERO or (i["kind"] == "while" and d.args[2] == 0):
                for H, (p0, ev, k) in i["carried"].items():
                    if ev is not None and any(s.op == "fn" and s.args[0] == "pop" and s.args[1] is H or s.op == "pop" and s.args[0] is H for s in subterms(ev)):
                        self.W, self.Q = d, H
        self.ok = self.W is not None

    def ob(self, key, ok, ln, msg, detail=""):
        self.ctx.ob("%s: %s" % (self.name, key), ok, "%s:%s" % (rel(self.f["file"]), ln or self.f["ln"]), "%s %s" % (self.name, msg), detail)

    def carried(self):
        return self.it.loopinfo[self.W]["carried"]


def known(fs, child, cost, maps, val):
    """in this case an equal or cheaper way to child is on record"""
    for v in lookups(fs, child):
        m = v.args[0]
        r = root(m)
        if r not in maps:
            continue
        x = val(r, v)
        if holds(fs, haskey(m, child)) and holds(fs, le(x, cost)):
            return True
    return False


def astar(ctx, prog, acc, f, name, start, goal, kids, edge, h):
    """kids(top id) -> list term; edge(list, i, top id) -> (child id, valid, distance); h(id) -> heuristic"""
    it = I.Interp(prog, opaque=[EXTRACT])
    it.run(f)
    ctx.analysed(f)
    S = Search(ctx, it, f, name)
    S.ob("search loop", S.ok, f["ln"], "has no loop that pops its queue")
    if not S.ok:
        return
    info = it.loopinfo[S.W]
    ln = info["ln"]
    C = info["carried"]
    Q = S.Q
    TOP = sel(Q, mk("lit", "top()"))
    tops = [s for H in C for s in (subterms(C[H][1]) if C[H][1] is not None else ()) if s.op == "sel" and s.args[0] is Q and "top()" in show(s.args[1])]
    S.ob("takes the head", bool(tops), ln, "does not read the head of its queue")
    if not tops:
        return
    TOP = tops[0]
    PQ = "arc_helpers::AstarPQueueElement"
    ID, COST, BP, VALUE = (lambda n: lambda x: acc(x, PQ, n))("id"), (lambda n: lambda x: acc(x, PQ, n))("costToCome"), (lambda n: lambda x: acc(x, PQ, n))("backpointer"), (lambda n: lambda x: acc(x, PQ, n))("value")
    tid, tcost, tbp = ID(TOP), COST(TOP), BP(TOP)
    # --- the result
    r = it.result
    okr = r.op in ("fn", "call") and r.args[0] == EXTRACT
    S.ob("reports from the record", okr, ln, "does not build its result from the record of explored nodes", show(r)[:300])
    if not okr:
        return
    M, rs, rg = r.args[1], r.args[2], r.args[3]
    S.ob("reports start and goal", rs is start and rg is goal, ln, "extracts the path for other nodes than its start and goal", show(rs) + " " + show(rg))
    E = None
    for H in C:
        if any(s is H for s in subterms(M)) and H is not Q and any(s.op == "astore" and root(s) is H for s in subterms(C[H][1])):
            E = H
    S.ob("keeps a record", E is not None, ln, "hands over a record that its search does not fill")
    if E is None:
        return
    p0, eev, _ = C[E]
    S.ob("record starts empty", p0.op == "seq" and not p0.args, ln, "starts with a non-empty record", show(p0)[:200])
    def good_store(m, base):
        return m is base or (m.op == "astore" and m.args[0] is base and m.args[1] is tid and fld(m.args[2], "first") is tbp and fld(m.args[2], "second") is tcost)
    # --- leaves of the record update
    stored, kept = [], []
    for (v,), cs in cases([eev]):
        if v is E:
            kept.append(cs)
        else:
            stored.append(cs)
            S.ob("record %d" % len(stored), good_store(v, E), ln, "records a node without its own predecessor and cost", show(v)[:300])
    S.ob("records expanded nodes", bool(stored), ln, "never records an expanded node")
    known_e = lambda key, cost: [land(haskey(E, key), le(fld(sel(E, key), "second"), cost))]
    isgoal = eq(tid, goal)
    for cs in kept:
        S.ob("not recorded only if known", proved(cs, lor(isgoal, *known_e(tid, tcost))) or all(holds(s, isgoal) or known(s, tid, tcost, {E}, lambda r, v: fld(v, "second")) for s in splits(cs)), ln,
             "leaves a node unexpanded although no equal or cheaper way to it was recorded", " and ".join(show(c) for c in cs)[:300])
    for cs in stored:
        bad = list(cs) + [haskey(E, tid), le(fld(sel(E, tid), "second"), tcost)]
        live = [s for s in splits(bad) if not entails(s, FALSE) and not (holds(s, isgoal))]
        S.ob("re-expansion needs a cheaper way", not live, ln, "expands a node again without a strictly cheaper way to it (endless on zero-length cycles)", str([[show(x) for x in s] for s in live])[:300])
    # --- break and end
    cond, brk, bst = info["cond"], info.get("brk"), info.get("bstate")
    nonempty = lnot(eq(size(Q), ZERO))
    S.ob("runs until the queue is empty", cond is not None and (cond is nonempty or entails([cond], lt(ZERO, size(Q), True)) and entails([lt(ZERO, size(Q), True)], cond) or proved([lnot(cond)], le(size(Q), ZERO, True))), ln,
         "stops while its queue still holds candidates", show(cond) if cond is not None else "")
    if brk is not None:
        S.ob("stops early only at the goal", proved([brk], isgoal), ln, "stops early although the head of the queue is not the goal", show(brk)[:300])
        bv = it.endval(bst, C[E][2])
        S.ob("records the goal before stopping", bv is not None and all((v.op == "astore" and good_store(v, E)) or (v is E and proved(list(cs) + [brk], lor(*known_e(tid, tcost)))) for (v,), cs in cases([bv])), ln,
             "stops at the goal without recording its predecessor and cost", show(bv)[:300] if bv is not None else "")
    # the record handed over is the one the loop leaves
    MM = [M]
    okm = False
    if M.op == "ite":
        okm = any(x.op == "fold" and x.args[0] is S.W and x.args[2] is E for x in M.args[1:])
    elif M.op == "fold":
        okm = M.args[0] is S.W and M.args[2] is E
    S.ob("hands over the final record", okm, ln, "changes the record after the search", show(M)[:200])
    # --- initial queue
    q0, qev, _ = C[Q]
    its = [p for p in parts_of(q0)]
    ok0 = len(its) == 1 and its[0][0] == "item"
    S.ob("starts from the start node", ok0, ln, "does not begin with exactly the start node queued", show(q0)[:200])
    if ok0:
        e = its[0][1]
        S.ob("start is free", ID(e) is start and COST(e) is ZERO, ln, "queues the start with another node or cost", show(e)[:200])
        S.ob("start priority", VALUE(e) is h(start), ln, "queues the start at another priority than its heuristic", show(VALUE(e))[:200])
        bp = BP(e)
        S.ob("start has no predecessor", bp is num(-1), ln, "gives the start a predecessor", show(bp))
    # --- the pushes
    K = kids(tid)
    maps = {H for H in C if H is not Q}
    outerof = {}
    for d, i in it.loopinfo.items():
        if d is not S.W:
            for Hi, (_, _, k) in i.get("carried", {}).items():
                for H in C:
                    if C[H][2] == k and H is not Q:
                        outerof[Hi] = H
    maps |= set(outerof)
    drops = {}
    ps = list(pushes(parts_of(qev)))
    S.ob("head removed first", bool(ps) and ps[0][0] == "all" and (ps[0][1].args[-1] is Q) and "pop" in (str(ps[0][1].op), str(ps[0][1].args[0])), ln, "does not remove the node it expands", show(qev)[:200])
    n = 0
    for kind, t, pc, loops in ps[1:]:
        if kind != "item":
            S.ob("queue update", False, ln, "changes its queue in a way that cannot be followed", show(qev)[:200])
            continue
        n += 1
        tag = "push %d" % n
        S.ob(tag + " once per child", len(loops) == 1, ln, "queues children outside a single pass over the children")
        if len(loops) != 1:
            continue
        L = loops[0]
        li = it.loopinfo[L]
        iv = li["iv"]
        if iv is None:
            S.ob(tag + " all children", False, li["ln"], "does not visit all children in a counted pass")
            continue
        S.ob(tag + " all children", L.args[0] is ZERO and L.args[1] is size(K) and L.args[2] is ONE and li.get("brk") is None, li["ln"], "does not look at every child of the expanded node", show(L)[:200])
        child, valid, dist = edge(K, iv, tid)
        cost = add(tcost, dist)
        S.ob(tag + " node", ID(t) is child, li["ln"], "queues another node than the child it looks at", show(ID(t))[:200])
        S.ob(tag + " predecessor", BP(t) is tid, li["ln"], "records another predecessor than the expanded node", show(BP(t))[:200])
        S.ob(tag + " cost", COST(t) is cost, li["ln"], "queues another cost than the expanded node's cost plus the edge", show(COST(t))[:300])
        S.ob(tag + " priority", VALUE(t) is add(cost, h(child)), li["ln"], "queues a priority that is not cost plus heuristic", show(VALUE(t))[:300])
        S.ob(tag + " allowed edge", all(holds(s, valid) for s in splits(pc)), li["ln"], "follows an edge that is not allowed", " and ".join(show(c) for c in pc)[:300])
        # the expansion is recorded whenever children are pushed
        S.ob(tag + " recorded", all(proved(list(pc) + cs, FALSE) or not list(x for x in splits(list(pc) + cs) if not entails(x, FALSE)) for cs in kept), li["ln"], "queues children of a node it does not record")

        drops.setdefault(L, []).append((pc, child, valid, cost, iv, li))

    def val(r, v):
        return fld(v, "second") if outerof.get(r, r) is E else v
    for L, ds in drops.items():
        pc0, child, valid, cost, iv, li = ds[0]
        # neither of the pushes happens although the node is expanded
        outer = [c for c in atoms(pc0) if not contains(c, iv)]
        gap = outer + [valid] + [lnot(land(*[c for c in atoms(pc) if contains(c, iv) or c not in outer])) for pc, *_ in ds]
        bad = [s for s in splits(gap) if not entails(s, FALSE) and not holds(s, lnot(valid)) and not known(s, child, cost, maps | {E}, val)]
        S.ob("dropped only for a reason", not bad, li["ln"], "drops a child although its edge is allowed and no equal or cheaper way to it is known",
             " and ".join(show(x) for x in (bad[0] if bad else []))[:600])
        for c in outer:
            bad = [s for s in splits([lnot(c)]) if not entails(s, FALSE) and not holds(s, isgoal) and not known(s, tid, tcost, {E}, val)]
            S.ob("expanded unless known", not bad, li["ln"], "does not look at the children of a node although no equal or cheaper way to it was recorded", " and ".join(show(x) for x in (bad[0] if bad else []))[:400])
    S.ob("queues children", n > 0, ln, "never queues a child")
    # --- other maps consulted when dropping
    used = {outerof.get(root(v.args[0]), root(v.args[0])) for kind, t, pc, loops in ps if kind == "item" for x in pc for v in subterms(x) if v.op == "sel"} & (set(C) - {E, Q})
    for m in used:
        m0, mev, k = C[m]
        for (v,), cs in cases([m0]):
            while v.op == "astore":
                S.ob("queued-cost record start", v.args[1] is start and v.args[2] is ZERO, ln, "lists a queued cost that was never queued", show(v)[:200])
                v = v.args[0]
            S.ob("queued-cost record start empty", v.op == "seq" and not v.args, ln, "starts with queued costs that were never queued", show(v)[:200])
        todo = [mev]
        seen = 0
        while todo and seen < 50:
            x = todo.pop()
            seen += 1
            if x.op == "ite":
                todo += [x.args[1], x.args[2]]
            elif x.op == "fn" and x.args[0] == "erased":
                todo.append(x.args[1])
            elif x.op == "fold":
                todo += [x.args[1], x.args[3]]
            elif x is m or x.op == "s":
                pass
            elif x.op == "astore":
                todo.append(x.args[0])
                good = any(kind == "item" and ID(t) is x.args[1] and COST(t) is x.args[2] for kind, t, pc, loops in ps)
                S.ob("queued-cost record entry", good, ln, "lists a queued cost that it does not queue", show(x)[:200])
            else:
                S.ob("queued-cost record entry", False, ln, "changes its queued-cost record in a way that cannot be followed", show(x)[:200])


def comparators(ctx, prog, f, name):
    """the order of every priority queue that f declares: smallest first"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            t = x.get("t")
            if isinstance(t, str) and x.get("k") in ("ctor", "var", "decl", None) and t.replace("const ", "").startswith("std::priority_queue<"):
                out.add(t.replace("const ", "").rstrip("& "))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(f)
    return out


def lastarg(t):
    d, cur, parts = 0, "", []
    for ch in t[t.index("<") + 1:t.rindex(">")]:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += ch
    parts.append(cur.strip())
    return parts


def bare(t):
    d, o = 0, ""
    for ch in t:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            o += ch
    return o


def order(ctx, prog, f, name, prio):
    ts = comparators(ctx, prog, f, name)
    ctx.ob("%s: queue" % name, bool(ts), where(f), "%s has no priority queue" % name)
    for t in sorted(ts):
        args = lastarg(t)
        cmp_ = args[2] if len(args) > 2 else "std::less"
        fs = [g for g in prog.funcs if g["q"] == bare(cmp_) + "::operator()"]
        ctx.ob("%s: comparator" % name, bool(fs), where(f), "%s orders its queue by %s, largest first" % (name, bare(cmp_)))
        for g in fs[:1]:
            it = I.Interp(prog)
            it.run(g)
            ctx.analysed(g)
            l, r = A(0), A(1)
            P = lt(prio(r), prio(l))
            res = it.result
            if res is P:
                ctx.ob("%s: smallest first" % name, True, where(g), "")
                continue
            # a tie-break: near-equal priorities compare by another key of the two nodes
            ats = {}

            def atoms_(x, sgn=False):
                if x.op in ("and", "or"):
                    for y in x.args:
                        atoms_(y)
                elif x.op == "not":
                    atoms_(x.args[0])
                else:
                    ats[x] = 1
            atoms_(res)
            xs = [a for a in ats if a is not P]

            def ev(x, m):
                if x in m:
                    return m[x]
                if x.op == "and":
                    return all(ev(y, m) for y in x.args)
                if x.op == "or":
                    return any(ev(y, m) for y in x.args)
                if x.op == "not":
                    return not ev(x.args[0], m)
                return m[x]

            def keyed(a):
                """a mentions only the two priorities, with no constant above 1e-6 besides +-1"""
                ss = list(subterms(a))
                leaf = [x for x in ss if x.op == "fld" or x.op == "s"]
                okk = prio(l) in ss and prio(r) in ss and not any(x.op == "fn" and x.args[0] in ("()", "call") for x in ss)
                cs = [abs(c) for x in ss if x.op == "poly" for m, c in x.args] + [abs(x.args[0]) for x in ss if x.op == "c"]
                return okk and all(c == 1 or c == 0 or c <= 1e-6 for c in cs)
            near = [a for a in xs if keyed(a)]
            tie = [a for a in xs if a not in near]
            ok = len(tie) == 1 and bool(near) and len(near) <= 2 and P in ats
            if ok and len(near) == 2:
                ok = near[0] is lnot(near[1])
            if ok:
                t0 = tie[0]
                for pv in (True, False):
                    for tv in (True, False):
                        for nv in (True, False):
                            m = {P: pv, t0: tv, near[0]: nv}
                            if len(near) == 2:
                                m[near[1]] = not nv
                            got = ev(res, m)
                            want = tv if near_true(near[0], P, l, r, prio) == nv else pv
                            ok = ok and got == want
                # the tie-break itself is antisymmetric: swapping the nodes swaps it
                sw = subst(t0, {l: r, r: l})
                ok = ok and t0.op == "lt" and entails([t0], lnot(sw))
                # smaller tie-break value first
                h = [x for x in subterms(t0) if x.op == "fn" and x.args[0] == "()"]
                hl = [x for x in h if contains(x, l)]
                hr = [x for x in h if contains(x, r)]
                ok = ok and len(hl) == 1 and len(hr) == 1 and t0 is lt(hr[0], hl[0])
            ctx.ob("%s: smallest first" % name, ok, where(g), "%s does not take the smallest priority first" % name, show(res)[:300])


def near_true(a, P, l, r, prio):
    """the truth value of atom a when the two priorities are equal"""
    x = mk("s", "eqv")
    t = subst(a, {prio(l): x, prio(r): x})
    return entails([], t) or t is TRUE or entails([lt(ZERO, x)], t) or not (entails([lt(ZERO, x)], lnot(t)))


def extract(ctx, prog, f):
    """path = recorded predecessors from the goal back to the start; cost = the goal's recorded cost"""
    ex, s, g = A(0), A(1), A(2)
    hk = haskey(ex, g)
    w = where(f)
    st = I.State()
    for present in (False, True):
        it = I.Interp(prog)
        it.run(f, facts=[hk if present else lnot(hk)])
        r = it.result
        p, c = fld(r, "first"), fld(r, "second")
        if not present:
            ctx.ob("no goal, no path", p.op == "seq" and not p.args, w, "reports a path although the goal was never reached", show(p)[:200])
            ctx.ob("no goal, infinite cost", isinf(c), w, "reports a finite cost although the goal was never reached", show(c)[:200])
            continue
        ctx.ob("goal cost", c is fld(sel(ex, g), "second"), w, "reports another cost than the goal's recorded cost", show(c)[:200])
        chain(ctx, it, p, w, g, s, lambda x: fld(sel(ex, x), "first"), "ExtractAstarResult", lambda x: haskey(ex, x), lambda x: lt(x, ZERO, True))
    ctx.analysed(f)


def merged(carried):
    """carried values that always agree share one symbol"""
    hs = [h for h in carried if carried[h][1] is not None]
    cl = {}
    for h in hs:
        cl.setdefault(carried[h][0], []).append(h)
    groups = [g for g in cl.values()]
    while True:
        m = {h: g[0] for g in groups for h in g}
        ng = []
        for g in groups:
            d = {}
            for h in g:
                d.setdefault(subst(carried[h][1], m), []).append(h)
            ng += list(d.values())
        if len(ng) == len(groups):
            return m
        groups = ng


def chain(ctx, it, p, w, g, s, pred, name, has, stop):
    """p is the reversed list g, pred(g), pred(pred(g)), ... down to the start (s, or whatever has no predecessor)"""
    ok = p.op == "fn" and p.args[0] == "reversed"
    ctx.ob(name + " order", ok, w, "does not report the path from the start to the goal", show(p)[:200])
    Ls = [d for d, i in it.loopinfo.items() if i["kind"] == "while"]
    ctx.ob(name + " follows", len(Ls) == 1, w, "does not follow the recorded predecessors in one pass")
    if not ok or len(Ls) != 1:
        return
    X = p.args[1]
    L = Ls[0]
    i = it.loopinfo[L]
    C = i["carried"]
    m = merged(C)
    R = lambda t: subst(t, m)
    b = [H for H in C if m.get(H) is H and R(C[H][1]) is pred(H)]
    ctx.ob(name + " predecessor", len(b) == 1, w, "steps to something else than the recorded predecessor", "; ".join(show(c[1])[:100] for c in C.values() if c[1] is not None))
    if len(b) != 1:
        return
    b = b[0]
    b0 = C[b][0]
    P = [H for H in C if C[H][1] is not None and C[H][1].op == "seq" and any(q[0] == "all" and q[1] is H for q in parts_of(C[H][1]))]
    ctx.ob(name + " collects", len(P) == 1, w, "does not collect the nodes it walks over")
    if len(P) != 1:
        return
    P = P[0]
    p0, ev = C[P][0], R(C[P][1])
    items = [q[1] for q in parts_of(ev) if q[0] != "all"]
    pre = [q[1] if q[0] == "item" else None for q in parts_of(p0)]
    tail = []
    full = False
    if i.get("brk") is None:
        xs = [q for q in parts_of(R(X))]
        ks = [k for k, q in enumerate(xs) if q[0] == "loop" and q[1] is L or q[0] == "all" and q[1].op == "fold" and q[1].args[0] is L]
        if len(ks) == 1:
            tail = [q[1] if q[0] == "item" else None for q in xs[ks[0] + 1:]]
            full = True
    else:
        full = X.op == "ite" and any(x.op == "exists" and x.args[0] is L for x in subterms(X.args[0])) and X.args[2].op == "fold" and X.args[2].args[0] is L and R(X.args[1]) is ev
        if X.op == "ite" and X.args[1].op == "fold":
            full = X.args[1].args[0] is L and R(X.args[2]) is ev
    fin = [t is not None and t.op == "fold" and t.args[0] is L and R(t.args[3]) is pred(b) and t.args[1] is b0 for t in tail]
    form = None
    if len(items) == 1 and items[0] is b and not pre and b0 is g and len(tail) == 1 and (fin[0] or tail[0] is s):
        form = "A"
    elif len(items) == 1 and items[0] is b and pre == [g] and b0 is pred(g) and not tail:
        form = "B"
    elif len(items) == 1 and items[0] is pred(b) and pre == [g] and b0 is g and not tail:
        form = "C"
    ctx.ob(name + " lists every node once", full and form is not None, w, "does not list the goal, every recorded predecessor and the start exactly once",
           "before: %s; each step: %s; after: %s" % ([show(t)[:60] if t is not None else "?" for t in pre], [show(t)[:60] for t in items], [show(t)[:60] if t is not None else "?" for t in tail]))
    cond, brk = R(i["cond"]), i.get("brk")
    goal_ = lor(lnot(has(b)), *([eq(b, s)] if s is not None else []))
    if form == "B":
        ctx.ob(name + " walks to the start", proved([lnot(cond)], stop(b)), w, "stops before it reaches the start", show(cond)[:200])
        if brk is not None:
            ctx.ob(name + " stops at the start", s is not None and proved([R(brk)], eq(b, s)), w, "stops before it reaches the start", show(brk)[:200])
    elif form:
        ctx.ob(name + " walks to the start", proved([lnot(cond)], goal_) and brk is None, w, "stops before it reaches the start", show(cond)[:200])


def inner_of(ev, H):
    """the inner pass that updates H, as (loop, symbol, step, conditions) leaves; None for unchanged leaves"""
    out = []
    for (v,), cs in cases([ev]):
        if v is H:
            out.append((None, None, None, cs))
        elif v.op == "fold" and v.args[1] is H:
            out.append((v.args[0], v.args[2], v.args[3], cs))
        else:
            out.append((False, None, v, cs))
    return out


def dijkstra(ctx, prog, acc, f):
    name = "Dijkstra"
    it = I.Interp(prog)
    it.run(f)
    ctx.analysed(f)
    S = Search(ctx, it, f, name)
    S.ob("search loop", S.ok, f["ln"], "has no loop that pops its queue")
    if not S.ok:
        return
    GR, GN, GE = "arc_dijkstras::Graph", "arc_dijkstras::GraphNode", "arc_dijkstras::GraphEdge"
    info = it.loopinfo[S.W]
    ln, C, Q = info["ln"], info["carried"], S.Q
    r = it.result
    if r.op != "rec":
        S.ob("result", False, ln, "reports something else than graph, predecessors and distances", show(r)[:200])
        return
    start = A(1)
    parts = {"graph": acc(fld(r, "first"), GR, "getNodes"), "previous": fld(fld(r, "second"), "first"), "distance": fld(fld(r, "second"), "second")}
    sy = {}
    for k, v in parts.items():
        ok = v.op == "fold" and v.args[0] is S.W and v.args[2] in C
        S.ob("reports %s" % k, ok, ln, "does not report the %s record that the search leaves" % k, show(v)[:200])
        if not ok:
            return
        sy[k] = v.args[2]
    N, P, D = sy["graph"], sy["previous"], sy["distance"]
    S.ob("records distinct", len({N, P, D}) == 3, ln, "reports one record twice")
    tops = [s for H in C for s in (subterms(C[H][1]) if C[H][1] is not None else ()) if s.op == "sel" and s.args[0] is Q and "top()" in show(s.args[1])]
    S.ob("takes the head", bool(tops), ln, "does not read the head of its queue")
    if not tops:
        return
    TOP = tops[0]
    tid, tcost = fld(TOP, "first"), fld(TOP, "second")
    cond = info["cond"]
    S.ob("runs until the queue is empty", info.get("brk") is None and proved([lnot(cond)], le(size(Q), ZERO, True)), ln, "stops while its queue still holds candidates", show(cond)[:200])
    # --- initial values
    p0 = C[P][0]
    n = None
    for key, H, fill, at in (("predecessor", P, num(-1), start), ("distance", D, None, ZERO)):
        v = C[H][0]
        ok = v.op == "astore" and v.args[1] is start and v.args[2] is at
        S.ob("initial %s of the start" % key, ok, f["ln"], "does not begin with the start's own %s" % key, show(v)[:200])
        base = v.args[0] if v.op == "astore" else v
        pp = parts_of(base)
        ok = len(pp) == 1 and pp[0][0] == "rep" and pp[0][1] is size(acc(A(0), GR, "getNodes")) and (pp[0][2] is fill if fill is not None else isinf(pp[0][2]))
        S.ob("initial %s of the others" % key, ok, f["ln"], "does not begin with every node unreached", show(base)[:200])
    v = C[N][0]
    ok = v.op == "astore" and v.args[1] is start and acc(v.args[2], GN, "getDistance") is ZERO
    S.ob("initial node distance of the start", ok, f["ln"], "does not give the start's node distance zero", show(v)[:200])
    base = v.args[0] if v.op == "astore" else v
    ok = False
    if base.op == "fold":
        L, b0, H, bv = base.args
        iv = it.loopinfo[L]["iv"]
        ok = iv is not None and L.args[0] is ZERO and L.args[2] is ONE and it.loopinfo[L].get("brk") is None and bv.op == "astore" and bv.args[0] is H and bv.args[1] is iv and isinf(acc(bv.args[2], GN, "getDistance")) and \
            b0 is acc(A(0), GR, "getNodes") and L.args[1] in (size(H), size(b0))
    elif base.op == "mapped":
        b0, iv, lo, hi, idx, nv = base.args
        ok = idx is iv and lo is ZERO and hi is size(b0) and b0 is acc(A(0), GR, "getNodes") and isinf(acc(nv, GN, "getDistance"))
    S.ob("initial node distance of the others", ok, f["ln"], "does not begin with every node's distance infinite", show(base)[:200])
    q0 = list(pushes(parts_of(C[Q][0])))
    S.ob("starts from the start node", any(k == "item" and not pc and not lo and fld(t, "first") is start and fld(t, "second") is ZERO for k, t, pc, lo in q0), f["ln"], "does not queue the start at distance zero", show(C[Q][0])[:200])
    S.ob("nothing else is reached at first", all(k == "item" and (fld(t, "first") is start and fld(t, "second") is ZERO or isinf(fld(t, "second"))) for k, t, pc, lo in q0 if k not in ("all",)), f["ln"],
         "queues other nodes at a finite distance", show(C[Q][0])[:200])
    # --- one expansion
    inn = {k: inner_of(C[H][1], H) for k, H in sy.items()}
    for k in inn:
        S.ob("%s changes only in the pass" % k, all(x[0] is not False for x in inn[k]) and any(x[0] for x in inn[k]), ln, "changes the %s record outside the pass over the neighbours" % k)
        if not any(x[0] for x in inn[k]):
            return
    act = {k: [x for x in v if x[0]][0] for k, v in inn.items()}
    Ls = {x[0] for x in act.values()}
    S.ob("one pass", len(Ls) == 1, ln, "updates its records in different passes")
    if len(Ls) != 1:
        return
    L = Ls.pop()
    li = it.loopinfo[L]
    iv = li["iv"]
    Ni, Pi, Di = act["graph"][1], act["previous"][1], act["distance"][1]
    edges = acc(sel(Ni, tid), GN, "getInEdges")
    edges2 = acc(sel(N, tid), GN, "getInEdges")
    S.ob("visits every edge", iv is not None and L.args[0] is ZERO and L.args[1] in (size(edges), size(edges2)) and L.args[2] is ONE and li.get("brk") is None, li["ln"], "does not look at every edge into the expanded node", show(L)[:200])
    skip = {k: [x[3] for x in v if x[0] is None] for k, v in inn.items()}
    # --- the explored record
    X = [H for H in C if H not in (N, P, D, Q)]
    xs = []
    for H in X:
        for (v,), cs in cases([C[H][1]]):
            if v.op == "astore" and v.args[0] is H and v.args[1] is tid:
                xs.append((H, v, cs))
    S.ob("marks expanded nodes", len(xs) == 1, ln, "does not mark the nodes it expands")
    if len(xs) != 1:
        return
    XH, XV, xc = xs[0]
    skipc = lor(*[land(*cs) for cs in skip["previous"]]) if skip["previous"] else FALSE
    for k in skip:
        S.ob("%s skipped together" % k, (lor(*[land(*cs) for cs in skip[k]]) if skip[k] else FALSE) is skipc, ln, "skips the %s record under another condition" % k)
    expl = lambda key, m: subst(skipc, {tid: key, XH: m})
    S.ob("skips only expanded nodes", skipc is FALSE or (contains(skipc, XH) and not entails([], expl(tid, seq(()))) and it.simp(I.State(), expl(tid, XV)) is TRUE), ln, "skips nodes it has not expanded", show(skipc)[:200])
    x0 = C[XH][0]
    S.ob("nothing expanded at first", x0.op == "seq" and not x0.args or x0.op == "fn" and str(x0.args[0]).startswith("ctor:") and not any(y.op == "astore" for y in subterms(x0)) or x0.op == "new", f["ln"], "begins with nodes marked as expanded", show(x0)[:200])
    # --- pushes in the pass
    ps = list(pushes(parts_of(C[Q][1])))
    S.ob("head removed first", bool(ps) and ps[0][0] == "all" and ps[0][1].op == "fn" and ps[0][1].args[0] == "pop" and ps[0][1].args[1] is Q, ln, "does not remove the node it expands", show(C[Q][1])[:200])
    items = [p for p in ps[1:]]
    S.ob("queues neighbours", bool(items) and all(p[0] == "item" and p[3] == [L] for p in items), ln, "queues nodes outside the pass over the neighbours")
    e = sel(edges, iv)
    nb, w = acc(e, GE, "getFromIndex"), acc(e, GE, "getWeight")
    new = add(tcost, w)
    olds = [acc(sel(Ni, nb), GN, "getDistance"), sel(Di, nb)]
    nl = 0
    for (pv, dv, nv), cs in cases([act["previous"][2], act["distance"][2], act["graph"][2]]):
        ch = [pv is not Pi, dv is not Di, nv is not Ni]
        nl += 1
        tag = "case %d" % nl
        S.ob(tag + " together", all(ch) or not any(ch), li["ln"], "changes only some of distance, predecessor and node for a neighbour", " and ".join(show(c) for c in cs)[:200])
        if not any(ch):
            S.ob(tag + " kept for a reason", any(all(holds(s, le(o, new)) for s in splits(cs)) for o in olds), li["ln"], "ignores a shorter way to a neighbour", " and ".join(show(c) for c in cs)[:300])
            continue
        if not all(ch):
            continue
        S.ob(tag + " better", any(all(holds(s, lt(new, o)) for s in splits(cs)) for o in olds), li["ln"], "replaces a way by one that is not shorter", " and ".join(show(c) for c in cs)[:300])
        S.ob(tag + " predecessor", pv.op == "astore" and pv.args[0] is Pi and pv.args[1] is nb and pv.args[2] is tid, li["ln"], "records another predecessor than the expanded node", show(pv)[:300])
        S.ob(tag + " distance", dv.op == "astore" and dv.args[0] is Di and dv.args[1] is nb and dv.args[2] is new, li["ln"], "records another distance than the expanded node's plus the edge", show(dv)[:300])
        okn = nv.op == "astore" and nv.args[0] is Ni and nv.args[1] is nb and acc(nv.args[2], GN, "getDistance") is new
        S.ob(tag + " node distance", okn, li["ln"], "stores another distance in the node than in the table", show(nv)[:300])
        if okn:
            S.ob(tag + " node otherwise kept", all(acc(nv.args[2], GN, g) is acc(sel(Ni, nb), GN, g) for g in ("getValue", "getInEdges", "getOutEdges")), li["ln"], "changes more of a node than its distance")
        # queued unless already expanded
        queued = []
        for k, t, pc, lo in items:
            if k == "item" and fld(t, "first") is nb and fld(t, "second") is new:
                queued.append(land(*pc))
            else:
                S.ob(tag + " queued element", False, li["ln"], "queues another node or distance than the one it records", show(t)[:200] if t is not None else "")
        gap = list(cs) + [lnot(q) for q in queued] + [lnot(skipc)]
        def marked(s):
            for m in (XV, XH):
                e = expl(nb, m)
                v = sel(m, nb)
                e2 = subst(e, {haskey(m, nb): TRUE})
                # a node without an entry reads as zero
                if holds(s, e) or subst(e2, {v: ZERO}) is FALSE and holds(s, e2):
                    return True
            return False
        left = [s for s in splits(gap) if not entails(s, FALSE) and not marked(s)]
        S.ob(tag + " queued", not left, li["ln"], "improves a node without queueing it although it was not expanded yet", str([show(x) for x in (left[0] if left else [])])[:300])


def plan(ctx, prog, f):
    name = "SimpleAStarPlanner"
    EX = [g for g in prog.funcs if g["q"].endswith("SimpleAStarPlanner::ExtractPathBasic")]
    it = I.Interp(prog, opaque=[g["q"] for g in EX])
    it.run(f)
    ctx.analysed(f)
    S = Search(ctx, it, f, name)
    S.ob("search loop", S.ok, f["ln"], "has no loop that pops its queue")
    if not S.ok:
        return
    info = it.loopinfo[S.W]
    ln, C, Q = info["ln"], info["carried"], S.Q
    start = A(0)
    call = lambda i, *a: fn("()", A(i), *a)
    tops = [s for H in C for s in (subterms(C[H][1]) if C[H][1] is not None else ()) if s.op == "sel" and s.args[0] is Q and "top()" in show(s.args[1])]
    S.ob("takes the head", bool(tops), ln, "does not read the head of its queue")
    if not tops:
        return
    TOP = tops[0]
    tid = fld(TOP, "first")
    isgoal = tobool(call(4, tid))
    # --- result
    B = R = None
    for H in C:
        for s in subterms(C[H][1]) if C[H][1] is not None else ():
            if s.op in ("fn", "call") and "ExtractPathBasic" in str(s.args[0]):
                R = H
                B = s.args[1]
                S.ob("path ends at the goal", s.args[2] is tid, ln, "extracts the path to another node than the goal it found", show(s)[:200])
    rf = fld(it.result, "first")
    brk = info.get("brk")
    if R is None and brk is not None:
        # the path is extracted on the way out of the loop
        for s in subterms(rf):
            if s.op in ("fn", "call") and "ExtractPathBasic" in str(s.args[0]):
                B = s.args[1]
                S.ob("path ends at the goal", s.args[2] is tid, ln, "extracts the path to another node than the goal it found", show(s)[:200])
                left = mk("exists", S.W, brk)
                S.ob("reports the path", all((v is s) == holds(cs, left) and (v is s or holds(cs, lnot(left))) for (v,), cs in cases([rf])), ln, "reports something else than the extracted path", show(rf)[:200])
                S.ob("path only at a goal", proved([brk], isgoal), ln, "reports a path to a node that is not a goal", show(brk)[:200])
                S.ob("path at every goal", proved([info["cond"], isgoal], brk), ln, "finds a goal but reports no path", show(brk)[:200])
                break
    S.ob("extracts the path", B in C, ln, "does not extract its path from the predecessors it records")
    if B not in C:
        return
    if R is not None:
        for (v,), cs in cases([C[R][1]]):
            if v is not R:
                S.ob("path only at a goal", all(holds(s, isgoal) for s in splits(cs)), ln, "reports a path to a node that is not a goal", show(v)[:200])
            else:
                S.ob("path at every goal", all(holds(s, lnot(isgoal)) for s in splits(cs)), ln, "finds a goal but reports no path")
        S.ob("reports the path", rf.op == "fold" and rf.args[0] is S.W and rf.args[2] is R or contains(rf, R), ln, "reports something else than the extracted path", show(rf)[:200])
    # --- end of the search
    cond, brk = info["cond"], info.get("brk")
    flags = []
    for H in C:
        v = C[H][1]
        if v is None or H in (Q, B, R):
            continue
        p0 = C[H][0]
        if (p0 is ZERO or p0 is FALSE) and v is H:
            flags.append(H)     # set only on the way out
            continue
        if p0 is ZERO or p0 is FALSE:
            good = True
            for (x,), cs in cases([v]):
                if x is H:
                    continue
                good = good and all(holds(s, isgoal) for s in splits(cs))
            x = v
            if good and v is not H:
                flags.append(H)
    S.ob("runs until goal or empty", proved([lnot(cond)], lor(le(size(Q), ZERO, True), *[tobool(h) for h in flags])), ln, "stops while its queue still holds candidates and no goal was found", show(cond)[:200])
    if brk is not None:
        S.ob("stops early only at the goal", proved([brk], isgoal), ln, "stops early although the head of the queue is not a goal", show(brk)[:200])
    # --- the pass
    inn = {}
    for H in C:
        if H in (Q, R) or C[H][1] is None:
            continue
        leaves = inner_of(C[H][1], H)
        if any(x[0] for x in leaves):
            inn[H] = leaves
    CO = [H for H in inn if H is not B]
    S.ob("records cost and predecessor", len(CO) == 1 and B in inn, ln, "does not keep one cost record beside its predecessors")
    if len(CO) != 1 or B not in inn:
        return
    CO = CO[0]
    act = {}
    for H in (CO, B):
        S.ob("records change only in the pass", all(x[0] is not False for x in inn[H]), ln, "changes its records outside the pass over the neighbours")
        act[H] = [x for x in inn[H] if x[0]][0]
    L = act[CO][0]
    S.ob("one pass", L is act[B][0], ln, "updates its records in different passes")
    li = it.loopinfo[L]
    iv = li["iv"]
    K = call(1, tid)
    S.ob("visits every neighbour", iv is not None and L.args[0] is ZERO and L.args[1] is size(K) and L.args[2] is ONE and li.get("brk") is None, li["ln"], "does not look at every neighbour of the expanded node", show(L)[:200])
    S.ob("initial cost", C[CO][0] is astore(seq(()), start, ZERO), f["ln"], "does not begin with cost zero at the start alone", show(C[CO][0])[:200])
    S.ob("initial predecessors", C[B][0].op == "seq" and not C[B][0].args, f["ln"], "begins with recorded predecessors", show(C[B][0])[:200])
    q0 = list(pushes(parts_of(C[Q][0])))
    its = [(t, pc, lo) for k, t, pc, lo in q0 if k == "item"]
    S.ob("starts from the start node", len(its) == 1 and fld(its[0][0], "first") is start and fld(its[0][0], "second") is call(3, start), f["ln"], "does not begin with exactly the start at its heuristic", show(C[Q][0])[:200])
    # --- expanded set
    X = None
    for H in C:
        if H in (Q, R, CO, B) or C[H][1] is None:
            continue
        lv = list(cases([C[H][1]]))
        if any(v.op == "astore" and v.args[0] is H and v.args[1] is tid for (v,), cs in lv):
            X, xl = H, lv
    S.ob("marks expanded nodes", X is not None, ln, "does not mark the nodes it expands")
    if X is None:
        return
    S.ob("nothing expanded at first", C[X][0].op == "seq" and not C[X][0].args, f["ln"], "begins with nodes marked as expanded", show(C[X][0])[:200])
    for (v,), cs in xl:
        if v is X:
            S.ob("left unexpanded for a reason", proved(cs, lor(isgoal, haskey(X, tid))), ln, "neither expands a node nor has expanded it before", " and ".join(show(c) for c in cs)[:200])
        else:
            S.ob("expanded once", all(holds(s, lnot(haskey(X, tid))) for s in splits(cs)), ln, "expands a node again", show(v)[:200])
    nb = sel(K, iv)
    COi, Bi = act[CO][1], act[B][1]
    new = add(sel(CO, tid), call(2, tid, nb))
    ps = list(pushes(parts_of(C[Q][1])))
    S.ob("head removed first", bool(ps) and ps[0][0] == "all" and ps[0][1].op == "fn" and ps[0][1].args[0] == "pop" and ps[0][1].args[1] is Q, ln, "does not remove the node it expands", show(C[Q][1])[:200])
    items = ps[1:]
    S.ob("queues neighbours", bool(items), ln, "never queues a neighbour")
    aborts = [list(e.facts) + ([lnot(e.cond)] if e.kind == "assert" else []) for e in it.events if e.kind in ("noret", "throw", "assert") and e.loops]
    base = atoms([cond]) + ([le(ZERO, iv, True), lt(iv, size(K), True)] if iv is not None else [])
    if brk is not None and proved([cond, isgoal], brk):
        base.append(lnot(isgoal))

    def aborted(s):
        """the case ends in a failed assertion: a loud stop, not a dropped neighbour"""
        return any(all(holds(list(s) + base, c) for c in fs) for fs in aborts)
    pcs = []
    for k, t, pc, lo in items:
        S.ob("queue update", k == "item" and lo == [L], ln, "queues nodes outside the pass over the neighbours")
        if k != "item":
            return
        S.ob("queued node", fld(t, "first") is nb, li["ln"], "queues another node than the neighbour it looks at", show(t)[:200])
        S.ob("queued priority", fld(t, "second") is add(new, call(3, nb)), li["ln"], "queues a priority that is not cost plus heuristic", show(fld(t, "second"))[:300])
        pcs.append(land(*pc))
    outer = [x for x in xl if x[0][0] is not X]
    oc = outer[0][1]
    n = 0
    for (cv, bv), cs in cases([act[CO][2], act[B][2]]):
        n += 1
        ch = [cv is not COi, bv is not Bi]
        S.ob("case %d together" % n, all(ch) or not any(ch), li["ln"], "records only one of cost and predecessor", " and ".join(show(c) for c in cs)[:200])
        if all(ch):
            S.ob("case %d cost" % n, cv.op == "astore" and cv.args[0] is COi and cv.args[1] is nb and cv.args[2] is new, li["ln"], "records another cost than the expanded node's plus the step", show(cv)[:300])
            S.ob("case %d predecessor" % n, bv.op == "astore" and bv.args[0] is Bi and bv.args[1] is nb and bv.args[2] is tid, li["ln"], "records another predecessor than the expanded node", show(bv)[:300])
            left = [s for s in splits(list(cs) + list(oc) + [lnot(p) for p in pcs]) if not entails(s, FALSE)]
            S.ob("case %d queued" % n, not left, li["ln"], "improves a node without queueing it", str([show(x) for x in (left[0] if left else [])])[:300])
            worse = [s for s in splits(list(cs) + [haskey(COi, nb), le(sel(COi, nb), new)]) if not entails(s, FALSE)]
            S.ob("case %d better" % n, not worse, li["ln"], "replaces a way by one that is not cheaper")
        elif not any(ch):
            for s in splits(list(cs) + list(oc)):
                if entails(s, FALSE):
                    continue
                ok = holds(s, haskey(X, nb)) or holds(s, eq(nb, tid)) or known(s, nb, new, {COi, CO}, lambda r, v: v) or aborted(s)
                S.ob("case %d dropped for a reason" % n, ok, li["ln"], "drops a neighbour that was not expanded and has no equal or cheaper way", " and ".join(show(x) for x in s)[:300])
            left = [s for s in splits(list(cs) + pcs) if not entails(s, FALSE)] if len(pcs) == 1 else []
            S.ob("case %d not queued" % n, not left, li["ln"], "queues a node without recording how it was reached")
    for g in EX:
        i2 = I.Interp(prog)
        i2.run(g)
        ctx.analysed(g)
        chain(ctx, i2, i2.result, where(g), A(1), None, lambda x: sel(A(0), x), "ExtractPathBasic", lambda x: haskey(A(0), x), lambda x: FALSE)


def run(ctx):
    ctx.rule("Each search loop is summarised symbolically: the terms pushed on the queue, written to the record of explored nodes and used to skip a candidate are compared with the required ones, and every skipping condition must imply that the edge is disallowed or an equal or cheaper way is on record.")
    prog = ctx.program("graph")
    acc = Acc(ctx, prog)
    byname = lambda n: [f for f in prog.funcs if f["q"].endswith(n) and f["kind"] in ("method", "func", "function", "smethod", "static") or f["q"].endswith(n)]
    # generic search over callbacks
    fg = byname("::GenericAstarSearch")
    ctx.need(fg, "GenericAstarSearch")
    call = lambda i, *a: mk("fn", "()", A(i), *a)
    import engine.interp as _i
    done = []
    for f in fg:
        C = lambda i, *a: fn("()", A(i), *a)
        done.append(astar(ctx, prog, acc, f, "GenericAstarSearch", A(0), A(1), lambda t: C(2, t), lambda K, i, t: (sel(K, i), tobool(C(3, t, sel(K, i))), C(4, t, sel(K, i))), lambda x: C(5, x, A(1))))
    GR, GN, GE = "arc_dijkstras::Graph", "arc_dijkstras::GraphNode", "arc_dijkstras::GraphEdge"
    nodes = acc(A(0), GR, "getNodes")
    val = lambda i: acc(sel(nodes, i), GN, "getValue")
    kids = lambda t: acc(sel(nodes, t), GN, "getOutEdges")
    fl = byname("::PerformLazyAstar")
    ctx.need(len(fl) == 2, "both PerformLazyAstar overloads")
    for f in fl:
        bynode = "tu::Val" in f["params"][3]["t"] and "GraphEdge" not in f["params"][3]["t"]

        def edge(K, i, t, bynode=bynode):
            e = sel(K, i)
            to, fr = acc(e, GE, "getToIndex"), acc(e, GE, "getFromIndex")
            if bynode:
                return to, tobool(fn("()", A(3), val(fr), val(to))), fn("()", A(4), val(fr), val(to))
            return to, tobool(fn("()", A(3), A(0), e)), fn("()", A(4), A(0), e)
        done.append(astar(ctx, prog, acc, f, "PerformLazyAstar(%s)" % ("nodes" if bynode else "edges"), A(1), A(2), kids, edge, lambda x: fn("()", A(5), val(x), val(A(2)))))
    fa = byname("::PerformAstar")
    ctx.need(fa, "PerformAstar")
    for f in fa:
        def edge(K, i, t):
            e = sel(K, i)
            w = acc(e, GE, "getWeight")
            inf = mk("lit", "+inf")
            return acc(e, GE, "getToIndex"), land(lnot(eq(acc(e, GE, "getValidity"), ONE)), lt(w, INF(prog))), w
        done.append(astar(ctx, prog, acc, f, "PerformAstar", A(1), A(2), kids, edge, lambda x: fn("()", A(3), val(x), val(A(2)))))
    for f in byname("::ExtractAstarResult"):
        extract(ctx, prog, f)
    for f in byname("::PerformDijkstrasAlgorithm"):
        dijkstra(ctx, prog, acc, f)
    for f in [g for g in prog.funcs if g["q"].endswith("SimpleAStarPlanner::Plan")]:
        plan(ctx, prog, f)
    n = 0
    for f in prog.funcs:
        ts = comparators(ctx, prog, f, "")
        if ts:
            n += 1
            el = lastarg(sorted(ts)[0])[0]
            order(ctx, prog, f, f["q"].split("::")[-1], (lambda x: acc(x, "arc_helpers::AstarPQueueElement", "value")) if "AstarPQueueElement" in el else (lambda x: fld(x, "second")))
    ctx.need(n >= 4, "priority queues of the four searches")
    ctx.minimum(150)


def INF(prog):
    return lit("+inf")
