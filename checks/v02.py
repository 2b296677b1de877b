"""V02: location <-> index mapping of the fixed grid."""
from engine.driver import rel
from engine.eigen import comp, mp, minv, _affine
from engine.terms import *
from .grid import *
from .v01 import where

ASSUMPTIONS = ["exact arithmetic (rounding at cell faces is outside the model)", "the origin is an invertible rigid transform"]


def ifloor(t, ints):
    """floor of t when every non-constant part is an integer"""
    if t.op == "fn" and t.args[0] == "floor":
        p = poly_of(t.args[1])
        c = p.pop((), 0)
        if all(k.denominator == 1 and all(a in ints and e > 0 for a, e in m) for m, k in p.items()):
            import math
            return add(of_poly(p), num(math.floor(c)))
    return t


def run(ctx):
    ctx.rule("The index of a location is compared, as a term, with floor((inverse(origin)*p)_a / cell_a); the cell centre with origin*(cell_a*(i_a+1/2)); their composition must reduce to the identity.")
    prog = ctx.program("grid")
    G = Grid(ctx, prog)
    A = lambda i: mk("s", "arg", i)
    Oi = minv(G.O)
    _affine[G.O] = True
    xyz = mk("vec", A(0), A(1), A(2))
    v = A(0)
    coords = {("double",) * 3: [A(0), A(1), A(2)], ("Vector3d",): [comp(v, num(k)) for k in range(3)], ("Vector4d",): [comp(v, num(k)) for k in range(3)]}

    def inframe(ps):
        if ps == ("double",) * 3:
            return [comp(mp(Oi, xyz), num(k)) for k in range(3)]
        return [comp(mp(Oi, v), num(k)) for k in range(3)]
    n = 0
    for f in G.pub:
        ps = tuple(short(p["t"]) for p in f["params"])
        if f["n"].startswith("PointInFrameToGridIndex") or f["n"].startswith("LocationToGridIndex"):
            pts = coords[ps] if f["n"].startswith("Point") else inframe(ps)
            ix = G.index(f)
            for a, i, p, c in zip("xyz", ix, pts, G.C):
                want = fn("floor", div(p, c))
                ctx.ob("%s:%s" % (sig(f), a), i is want, where(f), "the %s index of a location is not the floor of its coordinate in cells" % a, "%s, expected %s" % (show(i), show(want)))
                n += 1
        if f["n"].startswith("LocationInBounds"):
            nm = {"LocationInBounds": "LocationToGridIndex"}.get(f["n"], f["n"].replace("LocationInBounds", "LocationToGridIndex"))
            ix = [fn("floor", div(p, c)) for p, c in zip(inframe(ps), G.C)]
            it = G.call(f, facts=G.base + inb(ix, G.N))
            ctx.ob(sig(f) + ":in", it.result is TRUE, where(f), "a location inside the grid is not always reported so", show(it.result)[:300])
            for w, c in zip("xyzXYZ", outb(ix, G.N)):
                it = G.call(f, facts=G.base + [c])
                ctx.ob(sig(f) + ":out" + w, it.result is FALSE, where(f), "a location outside the grid is not always reported so", show(it.result)[:300])
        if f["n"].startswith("GridIndexToLocation"):
            ix = [A(0), A(1), A(2)] if ps == ("int64",) * 3 else [fld(A(0), a) for a in "xyz"]
            centre = mk("vec", *[mul(c, add(i, num(Fraction(1, 2)))) for c, i in zip(G.C, ix)])
            framed = f["n"].endswith("GridFrame")
            if not framed:
                _affine[G.O] = True
            it = G.call(f, facts=G.base)
            r = it.result
            for k, a in enumerate("xyz"):
                want = comp(centre if framed else mp(G.O, centre), num(k))
                ctx.ob("%s:%s" % (sig(f), a), comp(r, num(k)) is want, where(f), "the location of a cell is not its centre (%s)" % a, "%s, expected %s" % (show(comp(r, num(k))), show(want)))
            ctx.ob(sig(f) + ":w", comp(r, num(3)) is ONE, where(f), "the location of a cell is not a homogeneous point", show(comp(r, num(3))))
            # there and back
            back = [g for g in G.pub if g["n"] == ("PointInFrameToGridIndex4d" if framed else "LocationToGridIndex4d")]
            ctx.need(len(back) == 1, "location to index (4d)")
            j = G.index(back[0], [r])
            for a, i, b in zip("xyz", ix, j):
                ctx.ob("%s:roundtrip:%s" % (sig(f), a), ifloor(b, set(ix)) is i, where(f), "the centre of a cell does not map back to the cell", show(b))
                n += 1
    # quantities kept beside the pose, cell sizes and counts follow every change of those
    bare = {x for x in G.fields if G.S0[x].op == "s"}
    der = [x for x in G.fields if x not in bare and x != G.df and subterms(G.S0[x]) & {G.S0[b] for b in bare}]
    ctx.ob("derived fields", len(der) >= 4, "", "the inverse pose, inverse cell sizes and strides are not all derived from the parameters", str(der))
    for f in G.pub:
        if f["kind"] != "method" or f.get("mconst") or f.get("mstatic") or f["n"].startswith(("Initialize", "Deserialize", "Serialize", "operator")):
            continue
        it = G.call(f, facts=G.base)
        if it.dead:
            continue
        bs = sorted(bare)
        vals = [it.view[x] for x in bs] + [it.view[x] for x in der]
        for vs, cs in cases(vals):
            new = {G.S0[b]: x for b, x in zip(bs, vs)}
            for x, got in zip(der, vs[len(bs):]):
                want = subst(G.S0[x], new)
                if want is not got:
                    ctx.ob("%s:derived:%s" % (sig(f), x), False, where(f), "%s changes the grid's parameters without keeping %s in step" % (f["n"], x), "%s, expected %s" % (show(got)[:120], show(want)[:120]))
        ctx.ob("%s:derived" % sig(f), True, where(f))
        n += 1
    ctx.control("truncation is not floor", fn("trunc0", v) is not fn("floor", v))
    ctx.minimum(50)
