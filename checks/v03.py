"""V03: the dynamic hashed grid: reads give the last value set, chunk or cell, and converting between the two keeps everything else."""
from engine.driver import rel
from engine.eigen import comp, mp, minv, _affine
from engine.terms import *
from .grid import *
from .v01 import where

ASSUMPTIONS = ["exact arithmetic at chunk faces", "region lookup compares regions exactly", "std::unordered_map as documented"]
NOTF, CHUNK, CELL = ZERO, ONE, num(2)


def run(ctx):
    ctx.rule("Symbolic object-state analysis: starting from an arbitrary grid in which the containing region is absent, a single chunk value, or individual cells with arbitrary contents, "
             "the result and exit state of every accessor are compared, as terms, with the map-of-chunks semantics; a read run on the state a write leaves must return what was written.")
    prog = ctx.program("grid")
    ctx.facts = []
    G = Obj(ctx, prog, "VoxelGrid::DynamicSpatialHashedVoxelGrid")
    K = Obj(ctx, prog, "VoxelGrid::DynamicSpatialHashedVoxelGridChunk")
    O, dflt = sym("O"), sym("default")
    C = [sym("cell" + a) for a in "xyz"]
    N = [sym("n" + a) for a in "xyz"]
    total = mul(N[0], mul(N[1], N[2]))
    ext = [mul(c, n) for c, n in zip(C, N)]
    D = sym("D")
    nf = [lnot(mk("b", mk("fn", k, x))) if False else TRUE for k in () for x in ()]
    pos = [lt(ZERO, c) for c in C] + [le(ONE, n, True) for n in N] + [lt(ZERO, e) for e in ext]
    finite = []
    for x in C + ext:
        for k in ("isnan", "isinf"):
            finite.append(lnot(tobool(fn(k, x))))
    base = pos + finite + [eq(size(D), total), le(ONE, total, True)]
    rg = ctx.need([x for x in prog.recq.get(G.cls, []) if "float" in x["t"]], "class " + G.cls)[0]
    rk = ctx.need([x for x in prog.recq.get(K.cls, []) if "float" in x["t"]], "class " + K.cls)[0]
    gf = [x["n"] for x in rg["fields"]]
    kf = [x["n"] for x in rk["fields"]]
    mapf = [x["n"] for x in rg["fields"] if "unordered_map" in x["t"] or x["t"].startswith("std::map")]
    df = [x["n"] for x in rk["fields"] if x["t"].startswith("std::vector<")]
    ctx.need(len(mapf) == 1 and len(df) == 1, "the chunk map / the chunk contents")
    mapf, df = mapf[0], df[0]
    gview = lambda o: {f: fld(o, f) for f in gf}
    kview = lambda o: {f: fld(o, f) for f in kf}

    # ---- chunk objects
    def ctor(n):
        c = [f for f in K.pub if f["kind"] == "ctor" and len(f["params"]) == n]
        return ctx.need(c, "chunk constructor with %d parameters" % n)[0]
    R = sym("region")
    rb = [comp(fld(R, "base"), num(k)) for k in range(3)]

    def cellchunk(region, init):
        it = K.go(ctor(8), mk("s", "oldchunk"), [region] + C + N + [init], facts=pos + finite)
        ctx.need(not it.dead, "cell chunk construction")
        return unabs(it.post, C + ext)

    def valchunk(region, v):
        it = K.go(ctor(5), mk("s", "oldchunk"), [region] + ext + [v], facts=pos + finite)
        ctx.need(not it.dead, "value chunk construction")
        return unabs(it.post, C + ext)
    iv = sym("init")
    CC0 = cellchunk(R, iv)
    CC = upd(CC0, df, D)
    VC = valchunk(R, iv)
    w8, w5 = where(ctor(8)), where(ctor(5))
    ctx.ob("cellchunk:contents", fld(CC0, df) is seq([("rep", total, iv)]), w8, "a new cell chunk does not hold its initial value in every cell", show(fld(CC0, df)))
    ctx.ob("valchunk:contents", fld(VC, df) is seq([("rep", ONE, iv)]), w5, "a new chunk does not hold exactly its value", show(fld(VC, df)))
    if fld(CC0, df) is not seq([("rep", total, iv)]) or fld(VC, df) is not seq([("rep", ONE, iv)]):
        return
    cv = sym("value")
    VC = upd(VC, df, seq([("rep", ONE, cv)]))

    order = {}
    A = lambda i: mk("s", "arg", i)
    # ---- chunk by index
    ix = [A(0), A(1), A(2)]
    for f in K.pub:
        n, ps = f["n"], [short(p["t"]) for p in f["params"]]
        if ps[:3] == ["int64"] * 3 and len(ps) == 3:
            for kind, obj, NN in (("cells", CC, N), ("value", upd(VC, df, D), [ONE] * 3)):
                tot = mul(NN[0], mul(NN[1], NN[2]))
                fs = pos + finite + [eq(size(D), tot)]
                it = K.go(f, obj, facts=fs + inb(ix, NN) + (lemmas(ix, NN, size(D)) if kind == "cells" else [eq(i, ZERO) for i in ix]))
                key = "chunk:%s:%s" % (kind, sig(f))
                bad = [e for e in exits(it) if feasible(e)]
                ctx.ob(key + ":nothrow", not bad and not it.dead, where(f), "an in-range index may fail", "; ".join("%s at %s" % (e.kind, e.ln) for e in bad))
                if it.dead:
                    continue
                if n == "IndexInBounds":
                    ctx.ob(key + ":in", it.result is TRUE, where(f), "an in-range index is not reported so", show(it.result))
                elif n.startswith("Get") and n.endswith("ByIndex"):
                    a, b = pr(it.result)
                    if kind == "cells":
                        p = radix(a.args[1], ix, NN) if a.op == "sel" and a.args[0] is D else None
                        order[key] = p
                    else:
                        a2 = subst(a, {i: ZERO for i in ix})
                        p = a2 is sel(D, ZERO)
                    ctx.ob(key + ":cell", p not in (None, False), where(f), "an in-range read does not return its own cell", show(a))
                    ctx.ob(key + ":ok", b is TRUE, where(f), "an in-range read is not reported so", show(b))
                    ctx.ob(key + ":frame", not diff(kview(it.post), kview(obj)), where(f), "a read changes the chunk")
                elif n == "GetIndexLocationInGrid":
                    pt = [x[1] for x in it.result.args] if it.result.op == "seq" and all(x[0] == "item" for x in it.result.args) else []
                    if kind == "cells":
                        want = [add(b, mul(c, add(i, num(Fraction(1, 2))))) for b, c, i in zip(rb, C, ix)]
                    else:
                        want = [add(b, scale(e, Fraction(1, 2))) for b, e in zip(rb, ext)]
                    ctx.ob(key + ":centre", len(pt) == 3 and all(x is y for x, y in zip(pt, want)), where(f), "the location of an element is not its centre", show(it.result)[:300])
                else:
                    continue
                for w, c in zip("xyzXYZ", outb(ix, NN)):
                    it = K.go(f, obj, facts=fs + [c])
                    bad = [e for e in exits(it) if feasible(e)]
                    if n == "IndexInBounds":
                        ok = it.result is FALSE
                    elif n == "GetIndexLocationInGrid":
                        ok = it.result is EMPTY
                    else:
                        a, b = pr(it.result)
                        ok = b is FALSE and a is iv and not diff(kview(it.post), kview(obj))
                    ctx.ob("%s:out:%s" % (key, w), ok and not bad and not it.dead, where(f), "an index out of range is not refused", show(it.result)[:200])
        if n == "GetElementSize":
            for kind, obj, want in (("cells", CC, C), ("value", VC, ext)):
                it = K.go(f, obj, facts=base)
                ctx.ob("chunk:%s:%s" % (kind, n), it.result is seq([("item", x) for x in want]), where(f), "the element size is wrong", show(it.result))
        for i, a in enumerate("XYZ"):
            if n == "GetNum%sCells" % a:
                it = K.go(f, CC, facts=base)
                ctx.ob("chunk:" + n, it.result is N[i], where(f), "reports the wrong cell count", show(it.result))

    # ---- chunk by location
    def cells_of(g, rbase):
        q = [div(sub(a, b), c) for a, b, c in zip(g, rbase, C)]
        return [fn("trunc0", x) for x in q], [fn("floor", x) for x in q]

    def inside(g, rbase):
        t, fl = cells_of(g, rbase)
        out = []
        for a, b, e in zip(g, rbase, ext):
            out += [le(b, a), lt(sub(a, b), e)]
        for s in (t, fl):
            out += inb(s, N) + lemmas(s, N, size(D)) + lemmas(s, N, total)
        return out

    def cellidx(g, rbase, t):
        for s in cells_of(g, rbase):
            p = radix(t, s, N)
            if p is not None:
                return p
        return None
    g0 = [comp(A(0), num(k)) for k in range(3)]
    for f in K.pub:
        n, ps = f["n"], [short(p["t"]) for p in f["params"]]
        if ps[:1] == ["Vector3d"]:
            setter = n.startswith("Set")
            key = "chunk:" + sig(f)
            it = K.go(f, CC, facts=base + inside(g0, rb))
            bad = [e for e in exits(it) if feasible(e)]
            ctx.ob(key + ":nothrow", not bad and not it.dead, where(f), "a location inside the chunk may fail", "; ".join("%s at %s" % (e.kind, e.ln) for e in bad))
            if it.dead:
                continue
            if setter:
                nd = fld(it.post, df)
                p = cellidx(g0, rb, nd.args[1]) if nd.op == "astore" and nd.args[0] is D else None
                order[key] = p
                ctx.ob(key + ":cell", p is not None and nd.args[2] is A(1), where(f), "a write does not store the value to exactly the cell of its location", show(nd)[:300])
                ctx.ob(key + ":ok", it.result is TRUE, where(f), "a write inside the chunk is not reported as done", show(it.result)[:200])
                ctx.ob(key + ":frame", diff(kview(it.post), kview(CC)) == [df], where(f), "a write changes more than its cell", str(diff(kview(it.post), kview(CC))))
            else:
                a, b = pr(it.result)
                p = cellidx(g0, rb, a.args[1]) if a.op == "sel" and a.args[0] is D else None
                order[key] = p
                ctx.ob(key + ":cell", p is not None and b is TRUE and not diff(kview(it.post), kview(CC)), where(f), "a read inside the chunk does not return its cell", show(it.result)[:300])
            for k in range(3):
                q = div(sub(g0[k], rb[k]), C[k])
                for w, fs in (("below", [lt(g0[k], rb[k]), le(sub(g0[k], rb[k]), ext[k])]), ("above", [le(ext[k], sub(g0[k], rb[k])), le(N[k], fn("trunc0", q), True), le(N[k], fn("floor", q), True), lt(rb[k], g0[k])])):
                    it = K.go(f, CC, facts=base + fs)
                    bad = [e for e in exits(it) if feasible(e)]
                    if setter:
                        ok = it.result is FALSE and not diff(kview(it.post), kview(CC))
                    else:
                        a, b = pr(it.result)
                        ok = b is FALSE and a is iv and not diff(kview(it.post), kview(CC))
                    ctx.ob("%s:out:%s%s" % (key, w, "xyz"[k]), ok and not bad and not it.dead, where(f), "a location outside the chunk is not refused", show(it.result)[:200])
        elif n.endswith("ChunkMutable") or n.endswith("ChunkImmutable"):
            it = K.go(f, VC, facts=base)
            ctx.ob("chunk:" + n, not it.dead and it.result is cv and not diff(kview(it.post), kview(VC)), where(f), "the chunk value is not returned", show(it.result))
        elif n == "SetChunkValue":
            it = K.go(f, VC, facts=base)
            one = subst(fld(it.post, df), {}) if not it.dead else None
            ctx.ob("chunk:" + sig(f), not it.dead and sel(one, ZERO) is A(0) and size(one) is ONE and it.result is TRUE and diff(kview(it.post), kview(VC)) in ([df], []), where(f),
                   "setting the chunk value does not set exactly it", show(one) if one else "")
    # ---- whole grid
    ini = [f for f in G.named("Initialize")]
    ctx.need(len(ini) >= 2, "Initialize")
    S0 = None
    for f in [f for f in G.pub if f["n"] == "Initialize" or f["kind"] == "ctor"]:
        ps = [short(p["t"]) for p in f["params"]]
        if not ps or "float" not in ps:
            if not ps and f["kind"] == "ctor":
                it = G.go(f, mk("s", "old"))
                flag = [g for g in G.named("IsInitialized")]
                r = G.go(flag[0], it.post)
                ctx.ob("default:uninitialized", r.result is FALSE, where(f), "a grid without sizes reports itself initialized", show(r.result))
            continue
        nd = ps.count("double")
        cells = C if nd == 3 else [C[0]] * 3
        args = ([O] if ps[0] == "Isometry3d" else []) + (C if nd == 3 else [C[0]]) + N + [dflt]
        it = G.go(f, mk("s", "old"), args, facts=pos + finite)
        ctx.ob("grid:%s:total" % sig(f), not it.dead, where(f), "valid sizes are rejected")
        if it.dead:
            continue
        v = gview(unabs(it.post, C + ext))
        if S0 is None:
            full = [g for g in ini if len(g["params"]) == 8]
            ctx.need(len(full) == 1, "Initialize with an origin")
            S0 = gview(unabs(G.go(full[0], mk("s", "old"), [O] + C + N + [dflt], facts=pos + finite).post, C + ext))
        m = {} if nd == 3 else dict(zip(C, cells))
        for x in gf:
            want = subst(S0[x], m)
            if ps[0] != "Isometry3d":
                if S0[x] is O or S0[x] is minv(O):
                    want = mk("fn", "identity")
            got = v[x]
            ctx.ob("grid:%s:state:%s" % (sig(f), x), got is want or want.op == "fn" and want.args[0] == "identity" and got.op == "fn" and got.args[0] in ("identity",) , where(f),
                   "the new grid's %s is not what its parameters imply" % x, "%s, expected %s" % (show(got)[:150], show(want)[:150]))
        for p, a in zip(f["params"], args):
            if a in C or a in N:
                it = G.go(f, mk("s", "old"), args, facts=[c for c in pos + finite if a not in subterms(c)] + [le(a, ZERO, a in N)])
                ctx.ob("grid:%s:reject:%s" % (sig(f), p["n"]), it.dead, where(f), "a non-positive %s is accepted" % p["n"])
    Sobj = mk("s", "old")
    for x in gf:
        Sobj = upd(Sobj, x, S0[x])
    M = sym("M")
    S = upd(Sobj, mapf, M)
    _affine[O] = True
    region = [f for f in G.named("GetContainingChunkRegion")]
    ctx.need(len(region) == 1, "GetContainingChunkRegion")
    region = region[0]
    it = G.go(region, S, facts=base)
    rbase = [comp(fld(it.result, "base"), num(k)) for k in range(3)]
    for k in range(3):
        want = mul(ext[k], fn("floor", div(g0[k], ext[k])))
        ctx.ob("region:" + "xyz"[k], rbase[k] is want, where(region), "the containing region does not start at the largest multiple of the chunk size below the location", "%s, expected %s" % (show(rbase[k]), show(want)))
    for f in G.pub:
        n, ps = f["n"], [short(p["t"]) for p in f["params"]]
        if not (n in ("GetImmutable", "GetMutable", "SetCellValue", "SetChunkValue")):
            continue
        loc = mk("vec", A(0), A(1), A(2)) if ps[0] == "double" else A(0)
        val = A(len(ps) - 1)
        gl = mp(minv(O), loc)
        key0 = "grid:" + sig(f)
        g = [comp(gl, num(k)) for k in range(3)]
        kr = G.go(region, S, [gl], facts=base).result
        kb = [comp(fld(kr, "base"), num(k)) for k in range(3)]
        ins = inside(g, kb)
        cell_obj = subst(CC, {R: kr})
        val_obj = subst(VC, {R: kr})
        has = tobool(fn("haskey", M, kr))
        for case, st, fs in (("absent", S, [lnot(has)]), ("cells", upd(Sobj, mapf, astore(M, kr, cell_obj)), [has]), ("value", upd(Sobj, mapf, astore(M, kr, val_obj)), [has])):
            key = "%s:%s" % (key0, case)
            it = G.go(f, st, facts=base + ins + fs)
            bad = [e for e in exits(it) if feasible(e)]
            ctx.ob(key + ":nothrow", not bad and not it.dead, where(f), "may fail for a valid location", "; ".join("%s at %s" % (e.kind, e.ln) for e in bad[:4]))
            if it.dead:
                continue
            post = it.post
            if n.startswith("Get"):
                a, b = pr(it.result)
                if case == "absent":
                    ok = a is dflt and b is NOTF
                elif case == "value":
                    ok = a is cv and b is CHUNK
                else:
                    p = cellidx(g, kb, a.args[1]) if a.op == "sel" and a.args[0] is D else None
                    order[key] = p
                    ok = p is not None and b is CELL
                ctx.ob(key + ":value", ok, where(f), "a read does not return %s" % {"absent": "the default value where nothing was set", "value": "the chunk's value", "cells": "the cell's value"}[case],
                       show(it.result)[:300])
                ctx.ob(key + ":frame", not diff(gview(post), gview(st)), where(f), "a read changes the grid", str(diff(gview(post), gview(st))))
                continue
            nm = unabs(fld(post, mapf), C + ext)
            ctx.ob(key + ":frame", diff(gview(post), gview(st)) in ([mapf], []), where(f), "a write changes more than the chunks", str(diff(gview(post), gview(st))))
            inner = nm
            ok = inner.op == "astore" and inner.args[1] is kr
            under_ = inner.args[0] if ok else None
            ctx.ob(key + ":region", ok and (under_ is M or under_.op == "astore" and under_.args[0] is M and under_.args[1] is kr), where(f), "a write does not touch exactly the containing region", show(nm)[:300])
            if not ok:
                continue
            now = inner.args[2]
            if n == "SetCellValue":
                want0 = {"absent": dflt, "cells": None, "value": cv}[case]
                ref = cell_obj if case == "cells" else upd(subst(CC0, {iv: want0, R: kr}), df, D)
                nd = fld(now, df)
                under_ = D if case == "cells" else seq([("rep", total, want0)])
                p = cellidx(g, kb, nd.args[1]) if nd.op == "astore" and nd.args[0] is under_ else None
                order[key] = p
                ctx.ob(key + ":cell", p is not None and nd.args[2] is val, where(f), "setting a cell does not change exactly that cell" + ("" if case != "value" else " of a region that held one value"), show(nd)[:300])
                df_ = [x for x in diff(kview(now), kview(ref)) if x != df and not (x == "region_" or fld(kview(now)[x], "base") is fld(kview(ref)[x], "base"))]
                ctx.ob(key + ":chunk", not df_, where(f), "the region's chunk is not a consistent cell chunk", "; ".join("%s: %s, expected %s" % (x, show(fld(now, x))[:100], show(fld(ref, x))[:100]) for x in df_))
                ctx.ob(key + ":status", it.result is CELL, where(f), "setting a cell is not reported as such", show(it.result)[:200])
                want_status = CELL
            else:
                ref = upd(subst(VC, {R: kr, iv: val}), df, seq([("rep", ONE, val)]))
                nd = fld(now, df)
                ctx.ob(key + ":value", size(nd) is ONE and sel(nd, ZERO) is val, where(f), "setting a chunk does not leave exactly its value", show(nd)[:300])
                skip = {df}
                if case == "value":
                    skip |= {x for x in kf if fld(val_obj, x) is iv}
                df_ = [x for x in diff(kview(now), kview(ref)) if x not in skip and not (fld(kview(now)[x], "base") is fld(kview(ref)[x], "base"))]
                ctx.ob(key + ":chunk", not df_, where(f), "the region's chunk is not a consistent single-value chunk", "; ".join("%s: %s, expected %s" % (x, show(fld(now, x))[:100], show(fld(ref, x))[:100]) for x in df_))
                ctx.ob(key + ":status", it.result is CHUNK, where(f), "setting a chunk is not reported as such", show(it.result)[:200])
                want_status = CHUNK
            # read back through the public interface
            for gname in ("GetImmutable", "GetMutable"):
                gs = [x for x in G.named(gname) if [short(p["t"]) for p in x["params"]] == ps[:-1]]
                ctx.need(len(gs) == 1, gname)
                rd = G.go(gs[0], upd(S, mapf, nm), facts=base + ins + [has])
                a, b = pr(rd.result) if not rd.dead else (None, None)
                ctx.ob("%s:readback:%s" % (key, gname), a is val and b is want_status, where(f), "a read after the write does not return what was written", show(rd.result)[:300])
    for f in G.pub:
        want = {"GetCellSizes": seq([("item", x) for x in C]), "GetChunkSizes": seq([("item", x) for x in ext]), "GetChunkNumCells": seq([("item", x) for x in N]),
                "GetDefaultValue": dflt, "GetOriginTransform": O, "IsInitialized": TRUE}.get(f["n"])
        if want is not None:
            it = G.go(f, S, facts=base)
            ctx.ob("grid:%s" % f["n"], it.result is want, where(f), "reports something other than the grid's parameter", show(it.result)[:200])
        if f["n"] == "SetDefaultValue":
            it = G.go(f, S, facts=base)
            ch = diff(gview(it.post), gview(S))
            ctx.ob("grid:SetDefaultValue", len(ch) == 1 and fld(S, ch[0]) is dflt and fld(it.post, ch[0]) is A(0), where(f), "does not set exactly the default value", str(ch))
    ps = {p for p in order.values() if p is not None}
    ctx.ob("axis-order", len(ps) == 1, "", "accessors disagree about the position of a cell", str(order)[:300])
    ctx.minimum(150)


def diff(a, b):
    return [x for x in a if a[x] is not b[x]]
