"""N01: neighbours in a grid are exactly the valid cells around; the search across a grid returns a chain of them."""
from .numeric import *
from .p01 import ivar, terms_in

ASSUMPTIONS = ["rounding to the grid and validity are functions of their argument", "coordinates fit their types"]


# ---- what a list holds
def emissions(parts, conds=(), loops=()):
    """(value, conditions, loops) of every element of a list; a loop over another list goes through that list's elements"""
    for p in parts:
        if p[0] == "item":
            yield p[1], list(conds), list(loops)
        elif p[0] == "alt":
            yield from emissions(p[2], list(conds) + [p[1]], loops)
            yield from emissions(p[3], list(conds) + [lnot(p[1])], loops)
        elif p[0] == "loop":
            L, body = p[1], p[2]
            iv = ivar(L, L.args[0], *terms_in(body))
            src = {s.args[0] for t in terms_in(body) for s in subterms(t) if s.op == "sel" and s.args[1] is iv and s.args[0].op == "seq"}
            if L.args[0] is ZERO and L.args[2] is ONE and len(src) == 1:
                (q,) = src
                if sub(counts(size(q)), counts(L.args[1])) is ZERO or size(q) is L.args[1]:
                    for v, cs, ls in emissions(q.args):
                        yield from emissions(tsubst(body, {mk("sel", q, iv): v}), list(conds) + cs, list(loops) + ls)
                    continue
            yield from emissions(body, conds, list(loops) + [(L, iv)])
        else:
            yield None, [], []


def tsubst(x, m):
    if isinstance(x, Term):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(tsubst(y, m) for y in x)
    return x


# ---- neighbours of a state
def unrolled(v, cs, loops):
    """the element for every value of constant loop counters"""
    if not loops:
        yield v, cs
        return
    (L, iv), rest = loops[0], loops[1:]
    if not all(isc(x) for x in L.args[:3]):
        yield None, []
        return
    lo, hi, st = (int(x.args[0]) for x in L.args[:3])
    for k in range(lo, hi, st):
        m = {iv: num(k)}
        yield from unrolled(subst(v, m), [subst(c, m) for c in cs], [(tsubst(M, m), j) for M, j in rest])


def surrounding(t, dim):
    cfg = mk("s", "arg", 0)
    lims = [(mk("s", "arg", 1 + 2 * k), mk("s", "arg", 2 + 2 * k)) for k in range(dim)]
    step, rnd, ok = (mk("s", "arg", 1 + 2 * dim + k) for k in range(3))
    at = [sel(cfg, num(k)) for k in range(dim)]
    grid = lambda xs: fn("()", rnd, mk("vec", *xs))
    lo = grid([tmax(a, sub(c, step)) for (a, b), c in zip(lims, at)])
    hi = grid([tmin(b, add(c, step)) for (a, b), c in zip(lims, at)])
    want = {}
    import itertools
    for ds in itertools.product((-1, 0, 1), repeat=dim):
        n = grid([add(c, scale(step, d)) for c, d in zip(at, ds)])
        cond = []
        for k in range(dim):
            cond += [le(sel(lo, num(k)), sel(n, num(k))), le(sel(n, num(k)), sel(hi, num(k)))]
        cond.append(lor(*[lnot(eq(sel(n, num(k)), sel(cfg, num(k)))) for k in range(dim)]))
        want[n] = (ds, cond)
    if t.op != "seq":
        return "the neighbours are " + show(t)[:80]
    seen = {}
    for v, cs, loops in emissions(t.args):
        if v is None:
            return "the neighbours are " + show(t)[:80]
        for x, c in unrolled(v, cs, loops):
            if x is None:
                return "the steps are not known: " + show(loops[0][0])[:60]
            c = atoms(c)
            if contra(c):
                continue
            if x not in want:
                return "a neighbour is %s" % show(x)[:120]
            seen.setdefault(x, []).append(c)
    for n, (ds, cond) in want.items():
        if n not in seen:
            if any(ds):
                return "the step %s is left out" % (ds,)
            continue
        if len(seen[n]) != 1:
            return "the step %s is taken twice" % (ds,)
        c = seen[n][0]
        valid = [x for x in c if ok in subterms(x)]
        if not valid or any(not (x.args and x.args[-1] is n) for y in valid for x in [called(y, ok)] if x is not None) or any(y.op == "not" for y in valid):
            return "the step %s is not checked for validity" % (ds,)
        rest = [x for x in c if ok not in subterms(x)]
        if not proved(rest, land(*cond)):
            return "the step %s is taken outside of the limits or back to the state itself" % (ds,)
        miss = [x for x in rest if not proved(cond, x)]
        if miss:
            return "the step %s also needs %s" % (ds, show(miss[0])[:100])
    return None


def called(c, f):
    for x in outer(c):
        if len(x.args) >= 2 and f in x.args:
            return x
    return None


# ---- the search across a grid
def search(F, f):
    it = F.run(f)
    rows, cols, ok = (mk("s", "arg", i) for i in range(3))
    out = {}
    top = lambda Q: mk("sel", Q, mk("fn", "top"))
    # the search loop: the one that carries a queue
    found = None
    for L, info in it.loopinfo.items():
        for Q, c in info["carried"].items():
            if any(s is fn("pop", Q) for s in subterms(c[1])):
                # of the nested loops and of those run only once, the outermost in general state is wanted
                if L.args[0] == "w" and (found is None or len(info["carried"]) > len(found[1]["carried"])):
                    found = (L, info, Q)
    if found is None:
        return {"queue": "no loop takes cells from a queue"}
    L, info, Q = found
    cur = fld(top(Q), "first")
    cx, cy = fld(cur, "first"), fld(cur, "second")
    start = rec({"first": ZERO, "second": ZERO})
    goal = rec({"first": sub(rows, ONE), "second": sub(cols, ONE)})
    isgoal = [eq(cx, sub(rows, ONE)), eq(cy, sub(cols, ONE))]
    whole = {eq(cur, goal): land(*isgoal), eq(goal, cur): land(*isgoal)}
    car = {h: tuple(subst(x, whole) if isinstance(x, Term) else x for x in c) for h, c in info["carried"].items()}
    info = dict(info, carried=car, **{k: subst(info[k], whole) for k in ("cond", "brk") if info.get(k) is not None})
    inside = [le(ZERO, cx, True), le(add(cx, ONE), rows, True), le(ZERO, cy, True), le(add(cy, ONE), cols, True)]
    q0 = car[Q][0]
    if not (q0.op == "seq" and len(q0.args) == 1 and q0.args[0][0] == "item" and fld(q0.args[0][1], "first") is start):
        out["queue"] = "the search does not start at the first cell: " + show(q0)[:80]
    # explored cells
    E = None
    for h, c in car.items():
        if any(s.op == "astore" and s.args[0] is h and s.args[1] is mk("ij", cx, cy) for s in subterms(c[1])):
            E = h
    if E is None:
        return {"explored": "explored cells are not marked"}
    mark = mk("sel", E, mk("ij", cx, cy))
    e0 = car[E][0]
    if not any(s is ZERO for s in subterms(e0)) or not any(s.args[i:i + 2] == (rows, cols) for s in subterms(e0) for i in range(len(s.args) - 1)):
        out["explored"] = "cells start explored: " + show(e0)[:60]
    E1 = mk("astore", E, mk("ij", cx, cy), ONE)
    for (v,), cs in cases([car[E][1]]):
        fs = atoms(cs)
        if contra(fs):
            continue
        if v is E1:
            if not any(isnot(x, mark) for x in fs):
                out["explored"] = "a cell may be explored twice"
        elif v is E:
            if not all(any(istrue(x, mark) for x in s) or holds(s, land(*isgoal)) for s in splits(fs)):
                out["explored"] = "a cell taken from the queue may stay unexplored"
        else:
            out["explored"] = "marks " + show(v)[:80]
    # cells put into the queue
    R, C = mk("s", "ix", "row"), mk("s", "ix", "col")
    n1 = {}
    q1 = car[Q][1]
    for (v,), cs in cases([q1]):
        p = v.args if v.op == "seq" else (("all", v),)
        if p[0] != ("all", fn("pop", Q)):
            out["queue"] = "a round does not take the cell off the queue: " + show(v)[:80]
            continue
        for x, c, loops in emissions(p[1:], cs):
            if x is None:
                out["queue"] = "puts something else into the queue: " + show(v)[:80]
                continue
            c = atoms(c)
            if contra(c):
                continue
            w = around(fld(x, "first"), c, loops, (cx, cy), (R, C), rows, cols, ok, E, E1, mark, isgoal, inside)
            if w:
                out["cells"] = w
            n1[id(x)] = True
    if len(n1) != 1:
        out["cells"] = out.get("cells") or "cells are put into the queue at %d places" % len(n1)
    # parents: written with the cells put into the queue
    P = None
    for h, c in car.items():
        if c[0].op == "seq" and not c[0].args and h is not Q:
            P = h
    if P is None:
        return dict(out, parents="no record of where a cell was reached from")
    w = parents(it, car, P, Q, cur, E1)
    if w:
        out["parents"] = w
    # recovery
    fin = [s for s in subterms(it.result) if s.op == "loop" and s.args[0] == "w"]
    w = recovered(it, it.result, L, P, start, goal, isgoal)
    if w:
        out["result"] = w
    # the loop only ends with an empty queue or at the goal
    cond = info.get("cond")
    fs = list(conj(cond)) if cond is not None else []
    for x in fs:
        if x is lt(ZERO, size(Q), True) or x is le(ONE, size(Q), True) or x is lnot(eq(size(Q), ZERO)):
            continue
        h = [s for s in subterms(x) if s in car and s is not Q]
        if x.op == "not" and len(h) == 1 and car[h[0]][0] is ZERO and flag(car[h[0]][1], h[0], isgoal):
            continue
        out["ends"] = "the search also ends when not " + show(x)[:80]
    if info.get("brk") is not None:
        for s in splits([info["brk"]] + fs):
            if not (contra(s) or proved(s, land(*isgoal))):
                out["ends"] = "the search is also left when " + " and ".join(show(y) for y in s)[:80]
    return out


def istrue(x, mark):
    return x.op != "not" and x.args and (x is mark or x.args[0] is mark or x is tobool(mark))


def isnot(x, mark):
    return x is lnot(tobool(mark)) or x is eq(mark, ZERO)


def flag(v, h, isgoal):
    """v says that the goal was reached: set exactly under isgoal, else kept"""
    if v is h:
        return True
    for (x,), cs in cases([v]):
        fs = atoms(cs)
        if contra(fs):
            continue
        at = proved(fs, land(*isgoal))
        if not (at and x is ONE or not at and x is h and any(proved(fs, lor(*[lnot(g) for g in isgoal])) for _ in (0,))):
            return False
    return True


def around(x, c, loops, cur, RC, rows, cols, ok, E, E1, mark, isgoal, inside):
    """the cells x put into the queue are exactly the unexplored valid ones around cur"""
    rc = [fld(x, "first"), fld(x, "second")]
    ivs = [iv for _, iv in loops]
    sol, rng = {}, []
    for t, want in zip(rc, RC):
        iv = [i for i in ivs if i in subterms(t)]
        if len(iv) != 1 or iv[0] in subterms(sub(t, iv[0])):
            return "the cells are " + show(x)[:80]
        sol[iv[0]] = sub(want, sub(t, iv[0]))
    if len(sol) != 2 or len(loops) != 2:
        return "the cells are " + show(x)[:80]
    for M, iv in loops:
        lo, hi, st = M.args[:3]
        if st is not ONE:
            return "the cells are not all taken"
        rng += [le(subst(lo, sol), sol[iv], True), lt(sol[iv], subst(hi, sol), True)]
    got = rng + [subst(y, sol) for y in c]
    R, C = RC
    # what was true before: the current cell is inside, and not explored
    base, cells = [], []
    for y in got:
        (cells if R in subterms(y) or C in subterms(y) else base).append(y)
    for y in base:
        if proved(inside + [lor(*[lnot(g) for g in isgoal]), lnot(tobool(mark))], y):
            continue
        if not (isnot(y, mark) or y in [lnot(land(*isgoal)), lor(*[lnot(g) for g in isgoal])] or proved(inside, y) or any(s.op == "fn" and s.args[0] in ("sum", "size") for s in outer(y)) or y.op == "or" and all(lnot(g) in y.args for g in isgoal)):
            return "cells are only put into the queue when " + show(y)[:80]
    geo = [y for y in cells if ok not in subterms(y) and E not in subterms(y)]
    valid = [y for y in cells if ok in subterms(y)]
    new = [y for y in cells if E in subterms(y) and ok not in subterms(y)]
    for y in valid:
        z = called(y, ok)
        if z is None or tuple(z.args[-2:]) != (R, C) or y.op == "not":
            return "the validity asked for is " + show(y)[:80]
    if not valid:
        return "cells are not checked for validity"
    fresh = [tobool(mk("sel", m, mk("ij", R, C))) for m in (E1, E)]
    if not new or any(y not in [lnot(z) for z in fresh] for y in new):
        return "cells are only left out when explored already: " + (show(new[0])[:80] if new else "not so")
    need = [le(ZERO, R, True), lt(R, rows, True), le(ZERO, C, True), lt(C, cols, True)]
    for a, b in zip((R, C), cur):
        need += [le(sub(b, ONE), a, True), le(a, add(b, ONE), True)]
    need.append(lor(lnot(eq(R, cur[0])), lnot(eq(C, cur[1]))))
    for ts, cs in expand([ZERO], inside + geo):
        if dead(cs):
            continue
        for y in need:
            if not known(cs, [y]) and not proved(cs, y):
                # a cell that is the current one is explored by now
                if y is need[-1] and any(z is lnot(fresh[0]) for z in new):
                    continue
                return "cells beyond the eight around the current one inside the grid: not " + show(y)[:60]
    for y in geo:
        for ts, cs in expand([ZERO], inside + need + [lnot(y)]):
            if not dead(cs) and not all(contra(s) or dead(s) for s in splits(cs)):
                return "some cells around the current one are left out: those with not " + show(y)[:80]
    return None


def parents(it, car, P, Q, cur, E1):
    """wherever a cell is put into the queue, and only there, it is recorded as reached from the current one"""
    stores = [e for e in it.events if e.kind in ("mapinsert", "store") and any(s is P or s.op == "s" and s.args[:1] == ("H",) and s.args[-1] is P.args[-1] for s in subterms(getattr(e, "loc", ZERO)))]
    v1 = car[P][1]
    for (v,), cs in cases([v1]):
        if contra(atoms(cs)) or v is P:
            continue
        if v.op != "fold":
            return "the record becomes " + show(v)[:80]
        while v.op == "fold":
            M, p0, H, ev = v.args
            if p0 is not P and not (p0.op == "s"):
                return "the record starts over: " + show(p0)[:60]
            for (x,), c2 in cases([ev]):
                if contra(atoms(c2)) or x is H:
                    continue
                if x.op == "fold":
                    v = x
                    break
                if x.op != "astore" or x.args[0] is not H:
                    return "the record becomes " + show(x)[:80]
                if x.args[2] is not cur and not same_rec(x.args[2], cur):
                    return "a cell is recorded as reached from " + show(x.args[2])[:80]
                key = x.args[1]
                if not any(isnot(y, mk("sel", E1, mk("ij", fld(key, "first"), fld(key, "second")))) for y in atoms(list(cs) + list(c2))):
                    return "the record of an explored cell may change"
                for q, cq in cases([car[Q][1]]):
                    pass
                # the same loop puts the same cell into the queue
                puts = [t for e in it.events if e.kind == "push" for t in [e.val] if fld(t, "first") is key]
                if not puts:
                    return "the cell recorded is not the one put into the queue: " + show(key)[:80]
            else:
                v = ZERO
    return None


def same_rec(x, cur):
    return x.op == "rec" and all(fld(x, k) is fld(cur, k) for k in ("first", "second"))


def recovered(it, t, L, P, start, goal, isgoal):
    """the result: from the goal by the record to the start, reversed; nothing when the goal was not reached"""
    some = False
    for (v,), cs in cases([t]):
        fs = atoms(cs)
        if contra(fs):
            continue
        reached = any(x.op != "not" for x in fs if any(s.op == "exists" and s.args[0] is L for s in subterms(x)))
        if v.op == "seq" and not v.args:
            if reached:
                return "nothing is returned although the goal was reached"
            continue
        if not reached:
            return "a path is returned although the goal was not reached: " + show(v)[:80]
        some = True
        turned = v.op == "fn" and v.args[0] == "reversed"
        w = v.args[1] if turned else v
        p = list(w.args) if w.op == "seq" else []
        if not turned and len(p) == 2 and p[0][0] == "item" and p[1][0] == "all" and p[1][1].op == "fold":
            # every further cell put in front
            W, w0, H, ev = p[1][1].args
            if w0 is EMPTY and ev.op == "seq" and len(ev.args) == 2 and ev.args[0][0] == "item" and ev.args[1] == ("all", H):
                p, turned = [("loop", W, (ev.args[0],)), p[0]], True
        if not turned:
            return "the path is not in order from the start: " + show(v)[:80]
        if len(p) != 2 or p[0][0] != "loop" or p[0][1].args[0] != "w" or p[1][0] != "item":
            return "the path is " + show(v)[:100]
        if p[1][1] is not start and not (p[1][1].op == "fold"):
            return "the path does not begin with the first cell: " + show(p[1][1])[:60]
        W, body = p[0][1], p[0][2]
        if len(body) != 1 or body[0][0] != "item":
            return "the path is " + show(v)[:100]
        H = body[0][1]
        info = it.loopinfo.get(W, {})
        c = info.get("carried", {}).get(H)
        if c is None or c[0] is not goal:
            return "the path does not end with the last cell: " + (show(c[0])[:60] if c else show(H)[:60])
        last = [s for s in subterms(c[1]) if s.op == "fold" and s.args[2] is P]
        if any(not (x.op == "sel" and x.args[1] is H and (x.args[0] in last or x.args[0] is P)) for (x,), _ in cases([c[1]])):
            return "the path goes on to " + show(c[1])[-80:]
        cond = info.get("cond")
        if cond is None or info.get("brk") is not None or cond is not lnot(eq(start, H)) and cond is not lnot(eq(H, start)) and set(cond.args) != {lnot(eq(fld(H, k), ZERO)) for k in ("first", "second")}:
            return "the path is followed while " + (show(cond)[:80] if cond is not None else "?")
    return None if some else "no path is ever returned"


def run(ctx):
    ctx.rule("the list of neighbours holds, once for every step along any axes, the rounded state under exactly the required condition; every round of the search marks one cell and queues exactly the unexplored valid cells around it, "
             "recorded as reached from it; the path follows that record")
    F = Fns(ctx, "path", "arc_utilities::GetNeighbours::")
    for name, dim in (("TwoDimensional8Connected", 2), ("ThreeDimensional8Connected", 3)):
        fs = F.all(name)
        ctx.need(fs, name)
        for f in fs:
            it = F.run(f)
            F.ob(f, "neighbours", surrounding(it.result, dim), "does not list exactly the states around that are inside the limits and valid")
    F = Fns(ctx, "fod", "arc_utilities::FirstOrderDeformation::")
    f = (F.all("GetFirstOrderDeformation") or [None])[0]
    ctx.need(f, "GetFirstOrderDeformation")
    w = search(F, f)
    for k, m in (("queue", "does not search from the first cell"), ("explored", "does not explore each cell once"), ("cells", "does not go on to exactly the valid cells around"),
                 ("parents", "does not record where a cell was reached from"), ("ends", "may give up early"), ("result", "does not return the path found")):
        F.ob(f, k, w.get(k), m)
    ctx.minimum(8)
