"""V01: object invariant of the fixed grid and exactness of every bounds-checked accessor."""
from engine.driver import rel
from engine.terms import *
from .grid import *

ASSUMPTIONS = ["cell counts are such that their product does not overflow", "positive finite sizes (others are rejected by the constructors)"]


def where(f):
    return "%s:%s %s" % (rel(f["file"]), f["ln"], sig(f))


def run(ctx):
    ctx.rule("Symbolic object-state analysis: the constructor's exit state with arbitrary contents is the receiver; every public operation's result and "
             "exit state are compared, as polynomial terms, with the abstract array semantics for in-range and for each way of being out of range.")
    prog = ctx.program("grid")
    G = Grid(ctx, prog)
    S, D, N = G.S, G.D, G.N
    inits(ctx, G)
    order = {}
    LOC = {"3d": ("LocationToGridIndex3d", ["Vector3d"]), "4d": ("LocationToGridIndex4d", ["Vector4d"]), "xyz": ("LocationToGridIndex", ["double"] * 3)}
    for f in G.pub:
        n = f["n"]
        ps = [short(p["t"]) for p in f["params"]]
        setter = n.startswith("SetValue")
        if not (setter or n.startswith("GetImmutable") or n.startswith("GetMutable") or n in ("IndexInBounds", "HashDataIndex")) or "RawData" in n:
            continue
        k = ps[:-1] if setter else ps
        if k == ["int64"] * 3:
            ix = [mk("s", "arg", i) for i in range(3)]
        elif k == ["GRID_INDEX"]:
            ix = [fld(mk("s", "arg", 0), a) for a in "xyz"]
        else:
            v = {"Vector3d": "3d", "Vector4d": "4d"}.get(k[0], "xyz")
            ix = G.index(G.one(LOC[v][0], *LOC[v][1]))
        if any(x.op == "ite" for x in ix):
            ctx.ob(sig(f) + ":index", False, where(f), "cannot be established: the cell index of a location is conditional", "; ".join(map(show, ix))[:300])
            continue
        val = mk("s", "arg", len(ps) - 1)
        # in range
        it = G.call(f, facts=G.base + inb(ix, N) + lemmas(ix, N, size(D)))
        bad = [e for e in exits(it) if feasible(e)]
        ctx.ob(sig(f) + ":nothrow", not bad and not it.dead, where(f), "an in-range index may be rejected", "; ".join("%s at %s" % (e.kind, e.ln) for e in bad))
        if it.dead:
            continue
        if n == "IndexInBounds":
            ctx.ob(sig(f) + ":in", it.result is TRUE, where(f), "an in-range index is not always reported as in bounds", show(it.result))
        elif n == "HashDataIndex":
            p = radix(it.result, ix, N)
            order[sig(f)] = p
            ctx.ob(sig(f) + ":radix", p is not None, where(f), "distinct in-range cells may share a position", show(it.result))
        elif setter:
            nd = it.view[G.df]
            p = radix(nd.args[1], ix, N) if nd.op == "astore" and nd.args[0] is D else None
            order[sig(f)] = p
            ctx.ob(sig(f) + ":cell", p is not None, where(f), "an in-range write does not store to exactly its own cell", show(nd))
            ctx.ob(sig(f) + ":value", nd.op == "astore" and nd.args[2] is val, where(f), "the value stored is not the one given", show(nd))
            ctx.ob(sig(f) + ":ok", it.result is TRUE, where(f), "an in-range write is not reported as done", show(it.result))
            o = [x for x in G.same(it.view, S) if x != G.df]
            ctx.ob(sig(f) + ":frame", not o, where(f), "a write changes more than the contents", ", ".join(o))
        else:
            a, b = pr(it.result)
            p = radix(a.args[1], ix, N) if a.op == "sel" and a.args[0] is D else None
            order[sig(f)] = p
            ctx.ob(sig(f) + ":cell", p is not None, where(f), "an in-range read does not return its own cell", show(a))
            ctx.ob(sig(f) + ":ok", b is TRUE, where(f), "an in-range read is not reported as in range", show(b))
            ctx.ob(sig(f) + ":frame", not G.same(it.view, S), where(f), "a read changes the grid", ", ".join(G.same(it.view, S)))
        if n == "HashDataIndex":
            continue
        # out of range, one way at a time
        for w, c in zip(["x below", "y below", "z below", "x above", "y above", "z above"], outb(ix, N)):
            it = G.call(f, facts=G.base + [c])
            key = "%s:out:%s" % (sig(f), w)
            bad = [e for e in exits(it) if feasible(e)]
            if n == "IndexInBounds":
                ctx.ob(key, it.result is FALSE and not bad, where(f), "an index out of range (%s) is not always reported so" % w, show(it.result))
            elif setter:
                ctx.ob(key, not it.dead and not bad and it.result is FALSE and not G.same(it.view, S), where(f),
                       "a write out of range (%s) is not refused without effect" % w, "%s %s" % (show(it.result), G.same(it.view, S)))
            else:
                a, b = pr(it.result)
                ctx.ob(key, not it.dead and not bad and b is FALSE and a is G.oob and not G.same(it.view, S), where(f),
                       "a read out of range (%s) does not give the out-of-bounds value" % w, "%s, %s" % (show(a), show(b)))
    ps = {p for p in order.values() if p is not None}
    ctx.ob("axis-order", len(ps) == 1, rel(G.ini["file"]), "accessors disagree about the position of a cell", str(order))
    mutators(ctx, G)
    ctx.control("mixed radix recognised", radix(add(mul(mk("s", "p"), mul(N[1], N[2])), mul(mk("s", "q"), N[2]), mk("s", "r")), [mk("s", "p"), mk("s", "q"), mk("s", "r")], N) == (0, 1, 2))
    ctx.control("wrong stride rejected", radix(add(mul(mk("s", "p"), mul(N[0], N[2])), mul(mk("s", "q"), N[2]), mk("s", "r")), [mk("s", "p"), mk("s", "q"), mk("s", "r")], N) is None)
    ctx.minimum(250)


def inits(ctx, G):
    """every way of making a grid leaves the same kind of object behind, with the parameters asked for"""
    for f in [f for f in G.pub if f["kind"] == "ctor" or f["n"] == "Initialize"]:
        ps = [short(p["t"]) for p in f["params"]]
        if not ps or ps == ["vector"] or f["kind"] == "ctor" and not any(x in ps for x in ("double", "float")):
            continue
        i = 0
        O = None
        if ps[0] == "Isometry3d":
            O, i = G.O, 1
        d = ps.count("double")
        longs = ps.count("int64")
        nc = d - (0 if longs else 3)
        cells = [sym("c%d" % k) for k in range(nc)]
        C = cells if nc == 3 else cells * 3
        if longs:
            sz = [sym("m%d" % k) for k in range(3)]
            N = sz
        else:
            sz = [sym("w%d" % k) for k in range(3)]
            N = [fn("ceil", div(w, c)) for w, c in zip(sz, C)]
        vals = [sym("v%d" % k) for k in range(len(ps) - i - nc - 3)]
        ctx.need(1 <= len(vals) <= 2 and nc in (1, 3), "shape of " + sig(f))
        args = ([O] if O is not None else []) + cells + sz + vals
        facts = [lt(ZERO, c) for c in cells] + ([le(ONE, x, True) for x in sz] if longs else [lt(ZERO, x) for x in sz])
        it = G.go(f, mk("s", "old"), args, facts=facts)
        key = sig(f)
        # ceil of a positive ratio is at least one, so the second size check cannot fail
        lem = [le(ONE, n, True) for n in N]
        it2 = G.go(f, mk("s", "old"), args, facts=facts + lem + [le(ONE, fn("ceil", div(tabs(w), tabs(c))), True) for w, c in zip(sz, C)])
        ctx.ob(key + ":total", not it2.dead, where(f), "valid sizes are rejected")
        if it2.dead:
            continue
        pv = {x: unabs(y, cells + sz) for x, y in G.view(it2.post).items()}
        ex = O if O is not None else None
        m = {G.d: vals[0], G.oob: vals[-1]}
        m.update(zip(G.C, C))
        m.update(zip(G.N, N))
        if O is None:
            # centred: the origin is the low corner of a box around zero
            of = [x for x in G.fields if G.S0[x] is G.O]
            ex = pv[of[0]] if of else None
            want = [scale(mul(n, c), Fraction(-1, 2)) for n, c in zip(N, C)]
            got = [comp(ex, num(k)) for k in range(3)] if ex is not None else []
            t = ex.args[1:] if ex is not None and ex.op == "fn" and ex.args[0] == "Translation" else []
            ctx.ob(key + ":centred", len(t) == 3 and all(a is b for a, b in zip(t, want)), where(f), "a grid made without an origin is not centred on zero", show(ex) if ex else "")
        m[G.O] = ex
        for x in G.fields:
            want = seq([("rep", mul(N[0], mul(N[1], N[2])), vals[0])]) if x == G.df else subst(G.S0[x], m)
            if x == G.df:
                raw = sz if longs else [fn("ceil", div(tabs(w), tabs(c))) for w, c in zip(sz, C)]
                pv[x] = unabs(unrolled(fld(it2.post, x), facts + [le(ONE, mul(raw[0], mul(raw[1], raw[2])))], it2), cells + sz)
            if want.op == "fn" and want.args[0] == "matinv":
                from engine.eigen import minv
                want = minv(want.args[1])
            ctx.ob("%s:state:%s" % (key, x), pv[x] is want, where(f), "the new grid's %s is not what its parameters imply" % x, "%s, expected %s" % (show(pv[x])[:200], show(want)[:200]))
        for p, a in list(zip(f["params"], args))[i:i + nc + 3]:
            it = G.go(f, mk("s", "old"), args, facts=[c for c in facts if a not in subterms(c)] + [le(a, ZERO, bool(longs) and a in sz)])
            ctx.ob("%s:reject:%s" % (key, p["n"]), it.dead, where(f), "a non-positive %s is accepted" % p["n"])


def mutators(ctx, G):
    S = G.S
    A = lambda i: mk("s", "arg", i)
    full = lambda v: seq([("rep", G.total, v)])
    # what the parameters of the object state are held in
    fld_of = {}
    for name, t in (("O", G.O), ("d", G.d), ("oob", G.oob)):
        c = [x for x in G.fields if S[x] is t]
        ctx.need(c, "field holding " + name)
        fld_of[name] = c[0]
    for f in G.pub:
        n = f["n"]
        if f["kind"] == "ctor" or n in ("Initialize", "DeserializeSelf") or n.startswith("SetValue") or n.startswith("GetMutable"):
            continue
        it = G.call(f, facts=G.base)
        if it.dead or it.view is None:
            continue
        v = it.view
        m = {G.O: v[fld_of["O"]], G.d: v[fld_of["d"]], G.oob: v[fld_of["oob"]], G.D: v[G.df]}
        for x in G.fields:
            want = subst(S[x], m)
            if x == G.df:
                continue
            ctx.ob("%s:keeps:%s" % (sig(f), x), v[x] is want, where(f), "the grid's %s no longer matches its other parameters" % x, "%s, expected %s" % (show(v[x])[:200], show(want)[:200]))
        nd = v[G.df]
        for c, x in ([(TRUE, nd)] if nd.op != "ite" else [(nd.args[0], nd.args[1]), (lnot(nd.args[0]), nd.args[2])]):
            ok = x is G.D or entails(G.base + list(conj(c)), eq(size(x), G.total))
            ctx.ob("%s:size" % sig(f), ok, where(f), "the contents may get a length that does not match the cell counts", show(x)[:200])
        exp = None
        if n == "ResetWithDefault":
            exp = {G.df: full(G.d)}
        elif n == "ResetWithNewValue":
            exp = {G.df: full(A(0))}
        elif n == "ResetWithNewDefault":
            exp = {G.df: full(A(0)), fld_of["d"]: A(0)}
        elif n == "SetDefaultValue":
            exp = {fld_of["d"]: A(0)}
        elif n == "SetOOBValue":
            exp = {fld_of["oob"]: A(0)}
        elif n == "UpdateOriginTransform":
            exp = {x: subst(S[x], {G.O: A(0)}) for x in G.fields if S[x] is not subst(S[x], {G.O: A(0)})}
        elif n == "SetRawData":
            for c, r, want in ((eq(size(A(0)), G.total), TRUE, A(0)), (lnot(eq(size(A(0)), G.total)), FALSE, G.D)):
                it = G.call(f, facts=G.base + [c])
                ctx.ob("%s:%s" % (sig(f), show(r)), it.result is r and it.view[G.df] is want, where(f), "replacing the contents with a vector of the %s length misbehaves" % ("right" if r is TRUE else "wrong"),
                       "%s %s" % (show(it.result), show(it.view[G.df])))
            continue
        elif f.get("mconst"):
            exp = {}
        if exp is not None:
            w = dict(S)
            w.update(exp)
            df = G.same(v, w)
            ctx.ob("%s:effect" % sig(f), not df, where(f), "changes the wrong part of the grid", "; ".join("%s: %s" % (x, show(v[x])[:120]) for x in df))
        want = None
        for i, a in enumerate("XYZ"):
            if n == "Get%sSize" % a:
                want = mul(G.N[i], G.C[i])
            if n == "GetNum%sCells" % a:
                want = G.N[i]
        want = {"GetDefaultValue": G.d, "GetOOBValue": G.oob, "GetOriginTransform": G.O, "IsInitialized": TRUE, "GetCellSizes": mk("vec", *G.C),
                "GetImmutableRawData": G.D}.get(n, want)
        if want is not None:
            ctx.ob("%s:reports" % sig(f), it.result is want, where(f), "reports something other than the grid's parameter", show(it.result)[:200])
