"""P01: smoothing only takes checked shortcuts; resampling and upsampling keep the ends and go through the path in order."""
from .numeric import *

ASSUMPTIONS = ["the caller's distance is a function of the two states, not negative and never not-a-number", "interpolating all the way gives the second state",
               "numbers of states and intervals fit the types that count them", "a uniform distribution draws from its range"]
PATH = mk("s", "arg", 0)


def draws(t):
    """random numbers in t -> (names for them, facts about them)"""
    m, fs = {}, []
    for s in sorted((x for x in subterms(t) if x.op == "fn" and x.args[0] == "()" and len(x.args) == 3), key=lambda x: len(show(x))):
        d = s.args[1]
        if d.op == "fn" and d.args[0].startswith("ctor:std::uniform_") and len(d.args) == 3:
            integer = "_int_" in d.args[0]
            v = mk("s", "ix", "draw%d" % len(m)) if integer else mk("s", "real", "draw%d" % len(m))
            m[s] = v
            fs += [le(d.args[1], v), le(v, d.args[2])] if integer else [mk("fn", "drawn", v, d.args[1], d.args[2])]
    return m, fs


def shift(fs, t):
    """names for the truncated products size * draw in t, with their bound"""
    m, out = {}, []
    for s in subterms(t):
        if s.op == "fn" and s.args[0] == "trunc0":
            m[s] = mk("s", "ix", "shift%d" % len(m))
            out.append((m[s], s.args[1]))
    return m, out


def fraction(p, n, frac, fs):
    """p is a draw from [-frac, frac] times n"""
    for f in fs:
        if f.op == "fn" and f.args[0] == "drawn" and sub(p, mul(n, f.args[1])) is ZERO:
            return sub(f.args[3], frac) is ZERO and add(f.args[2], frac) is ZERO
    return False


def shortcut(F, f):
    it = F.run(f)
    what = {}
    # the loop that changes the path
    t = it.result
    folds = [s for s in outer(t) if s.op == "fold" and s.args[1] is PATH]
    if len(folds) != 1:
        return {"path": "the result does not grow out of the given path by rounds of one loop: " + show(t)[:80]}
    L, _, H, ev = folds[0].args
    for (v,), cs in cases([t]):
        if v not in (folds[0], H, PATH) and not contra(atoms(cs)):
            what["path"] = "the result may be " + show(v)[:80]
    # a round
    rounds = 0
    for (v,), cs in cases([ev]):
        fs = atoms(cs)
        if contra(fs) or v is H:
            continue
        rounds += 1
        p = ranges(v.args, fs) if v.op == "seq" else ()
        if len(p) != 2 or any(q[0] != "range" or q[1] is not H for q in p) or p[0][2] is not ZERO or p[1][3] is not size(H):
            what["path"] = what.get("path") or "a round makes the path " + show(v)[:100]
            continue
        s, e = sub(p[0][3], ONE), p[1][2]
        checks = [x for x in fs if mk("s", "arg", 4) in subterms(x) and x.op != "not"]
        ok = False
        for x in checks:
            for y in outer(x):
                a = y.args[-2:]
                if len(y.args) >= 3 and y.args[-3] is mk("s", "arg", 4) and all(z.op == "sel" and z.args[0] is H for z in a) and sub(a[0].args[1], s) is ZERO and sub(a[1].args[1], e) is ZERO:
                    ok = True
        if not ok:
            what["checked"] = "the states at both ends of a shortcut are not those whose connection was found valid"
        # order and range
        pre = it.loopinfo.get(L, {}).get("cond")
        fs = fs + (atoms([pre]) if pre is not None else []) + [le(ONE, size(H))]
        m, dr = draws(mk("ij", s, e))
        fs = [subst(x, m) for x in fs] + dr
        s, e = subst(s, m), subst(e, m)
        tr, sh = shift(fs, mk("ij", s, e))
        fs, s, e = [subst(x, tr) for x in fs if x.op != "fn"], subst(s, tr), subst(e, tr)
        for ts, c in expand([s, e], fs):
            if dead(c):
                continue
            x, y = ts
            if not (known(c, [le(ZERO, x), le(add(x, ONE), y), le(add(y, ONE), size(H))])):
                what["order"] = "a shortcut from %s to %s may leave the path or go backwards (under %s)" % (show(x)[:60], show(y)[:60], " and ".join(show(q) for q in c)[:160])
            if not any(known(c, [le(sub(y, x), z)]) for v_, _ in sh for z in (v_, neg(v_))):
                what["fraction"] = "a shortcut from %s to %s is not limited by the fraction" % (show(x)[:60], show(y)[:60])
        for v_, p_ in sh:
            if not fraction(subst(p_, m), size(H), mk("s", "arg", 3), dr):
                what["fraction"] = "the offset is %s" % show(subst(p_, m))[:80]
    if not rounds:
        what["path"] = what.get("path") or "no round changes the path"
    # limits
    info = it.loopinfo.get(L, {})
    if not bounded(L, info, mk("s", "arg", 1)):
        what["limit"] = "the number of attempts is not limited"
    if not failures(L, info, mk("s", "arg", 2), H, ev):
        what["failures"] = "failed attempts are not counted or not limited"
    return what


def ranges(parts, fs):
    """parts with loops that copy elements as ranges"""
    out = []
    for p in parts:
        if p[0] == "loop" and p[1].args[2] is ONE and len(p[2]) == 1:
            L, q = p[1], p[2][0]
            iv = ivar(L, *terms_in((q,)))
            if q[0] == "item":
                src, lo, hi = copied(q, iv)
                if src is not None:
                    out.append(("range", src, add(L.args[0], lo), add(L.args[1], hi)))
                    continue
            elif q[0] == "alt" and (len(q[2]), len(q[3])) in ((1, 0), (0, 1)):
                src, lo, hi = copied((q[2] + q[3])[0], iv)
                gap = conj(lnot(q[1]) if q[2] else q[1])
                a = [add(x, iv) for x in map(slack, gap) if x is not None and poly_of(x).get(((iv, 1),)) == -1]
                b = [sub(iv, x) for x in map(slack, gap) if x is not None and poly_of(x).get(((iv, 1),)) == 1]
                if src is not None and lo is ZERO and len(gap) == 2 and len(a) == len(b) == 1:
                    out += [("range", src, L.args[0], a[0]), ("range", src, add(b[0], ONE), L.args[1])]
                    continue
        out.append(p)
    return out


def copied(q, iv):
    if q[0] == "item" and q[1].op == "sel":
        o = sub(q[1].args[1], iv)
        if iv not in subterms(o) and iv not in subterms(q[1].args[0]):
            return q[1].args[0], o, o
    return None, None, None


def slack(f):
    """x for a fact x <= 0 between integers"""
    return f.args[0] if f.op == "lei" else None


def bounded(L, info, n):
    if L.args[0] is ZERO and L.args[2] is ONE and sub(L.args[1], n) is ZERO:
        return True
    conds = [c for c in (info.get("cond"), lnot(info["brk"]) if info.get("brk") is not None else None) if c is not None]
    for h, c in info.get("carried", {}).items():
        if c[0] is ZERO and conds and proved(conds + counters(conds), lt(h, n, True)):
            if all(contra(atoms(cs)) or proved(atoms(cs), le(add(h, ONE), v)) for (v,), cs in cases([c[1]])):
                return True
    return False


def failures(L, info, n, H, ev):
    conds = [c for c in (info.get("cond"), lnot(info["brk"]) if info.get("brk") is not None else None) if c is not None]
    for h, c in info.get("carried", {}).items():
        if h is H or c[0] not in (ZERO, n):
            continue
        step = 1 if c[0] is ZERO else -1
        if not conds or not proved(conds + counters(conds), lt(h, n, True) if step == 1 else lt(ZERO, h, True)):
            continue
        good = some = False
        for (v, p), cs in cases([c[1], ev]):
            fs = atoms(cs)
            if contra(fs):
                continue
            asked = [x for x in fs if mk("s", "arg", 4) in subterms(x)]
            refused = any(x.op == "not" for x in asked)
            if v is h and refused or v is not h and (sub(v, h) is not num(step) or not refused):
                good = False
                break
            good = good or refused
        if good:
            return True
    return False


# ---- resampling
def flatparts(parts, cs):
    """(parts, conditions) case by case"""
    for k, p in enumerate(parts):
        if p[0] == "alt":
            for c, q in ((p[1], p[2]), (lnot(p[1]), p[3])):
                yield from flatparts(list(parts[:k]) + list(q) + list(parts[k + 1:]), cs + [c])
            return
    yield list(parts), cs


def ivar(L, *ts):
    xs = {s for t in ts for s in subterms(t) if s.op == "s" and s.args[0] == "iv" and s.args[2:] == L.args[:3] and s.args[1] is L.args[3]}
    return xs.pop() if len(xs) == 1 else mk("s", "iv", L.args[3], *L.args[:3])


def terms_in(parts):
    for p in parts:
        for x in p[1:]:
            if isinstance(x, Term):
                yield x
            elif isinstance(x, tuple):
                yield from terms_in(x)


def is_at(t, k):
    return t.op == "sel" and t.args[0] is PATH and sub(t.args[1], k) is ZERO


def resampled(t, a, b, res, dist, interp):
    pre = [lt(a, b, True), le(b, size(PATH)), le(ZERO, a)]
    for (v,), cs in cases([t], pre):
        fs = atoms(cs)
        if contra(fs) or dead(fs):
            continue
        if v.op != "seq" or not v.args:
            return "the result may be " + show(v)[:100]
        for parts, cs2 in flatparts(v.args, fs):
            if contra(atoms(cs2)):
                continue
            one = proved(atoms(cs2), le(sub(b, a), ONE))
            p = parts[0]
            if p[0] == "range" and p[1] is PATH and len(parts) == 1 and one and sub(p[2], a) is ZERO and sub(p[3], b) is ZERO:
                continue
            if not (p[0] == "item" and is_at(p[1], a) or p[0] == "rep" and p[1] is ONE and is_at(p[2], a)):
                return "does not start with the first state: " + show(seq(parts))[:80]
            if len(parts) == 1 and one:
                continue
            if len(parts) != 2 or parts[1][0] != "loop":
                return "is not the first state followed by states per interval: " + show(seq(parts))[:80]
            L, body = parts[1][1], parts[1][2]
            iv = ivar(L, L.args[0], *terms_in(body))
            w = interval(L, body, iv, a, b, res, dist, interp)
            if w:
                return w
    return None


def interval(L, body, iv, a, b, res, dist, interp):
    if L.args[2] is not ONE:
        return "the intervals are not taken in order"
    # states cur, cur + 1 of every round, found from the distance
    ds = [s for t in terms_in(body) for s in subterms(t) if s.op == "fn" and s.args[0] == "()" and s.args[1] is dist and len(s.args) == 4]
    if not ds or any(d is not ds[0] for d in ds):
        return "not one distance per interval"
    x, y = ds[0].args[2:]
    if not (x.op == "sel" and x.args[0] is PATH and is_at(y, add(x.args[1], ONE))):
        return "the distance is not that of a state and the next: " + show(ds[0])[:80]
    off = sub(x.args[1], iv)
    if iv in subterms(off) or sub(add(L.args[0], off), a) is not ZERO or sub(add(L.args[1], off), sub(b, ONE)) is not ZERO:
        return "the intervals go from state %s to %s" % (show(add(L.args[0], off))[:40], show(add(L.args[1], off))[:40])
    ns = [s for t in terms_in(body) for s in subterms(t) if s.op == "fn" and s.args[0] == "ceil"]
    if not ns or any(s is not ns[0] for s in ns):
        return "the number of pieces is not rounded up"
    n = ns[0]
    if sub(mul(n.args[1], res), ds[0]) is not ZERO:
        return "the number of pieces is " + show(n)[:80]
    for parts, cs in flatparts(body, [le(ZERO, n)]):
        fs = atoms(cs)
        if contra(fs):
            continue
        if not parts:
            if not proved(fs, eq(n, ZERO)):
                return "an interval may be left out (%s)" % " and ".join(show(q) for q in fs)[:100]
        elif len(parts) == 1 and parts[0][0] == "item":
            if not (proved(fs, eq(n, ONE)) and parts[0][1] is y):
                return "an interval may be one state only: %s" % show(parts[0][1])[:80]
        else:
            last = parts[1:]
            if parts[0][0] != "loop":
                return "states of an interval: " + show(seq(parts))[:80]
            M, inner = parts[0][1], parts[0][2]
            k = ivar(M, *terms_in(inner))
            if len(inner) != 1 or inner[0][0] != "item" or M.args[2] is not ONE:
                return "more than one state per step"
            v = inner[0][1]
            if not (v.op == "fn" and v.args[0] == "()" and v.args[1] is interp and v.args[2] is x and v.args[3] is y and len(v.args) == 5):
                return "a state of an interval is " + show(v)[:80]
            # ratio j / n, j from 1 to n
            j = mul(v.args[4], n)
            o = sub(j, k)
            if k in subterms(o):
                return "the ratio is " + show(v.args[4])[:80]
            top = n if not last else sub(n, ONE)
            if sub(add(M.args[0], o), ONE) is not ZERO or sub(add(M.args[1], o), add(top, ONE)) is not ZERO:
                return "the steps go from %s to %s" % (show(add(M.args[0], o))[:60], show(sub(add(M.args[1], o), ONE))[:60])
            if last and not (len(last) == 1 and last[0][0] == "item" and last[0][1] is y):
                return "an interval ends with " + show(seq(last))[:80]
    return None


# ---- upsampling
def maxqueue(F, f):
    """no queue with an order of its own in f"""
    def walk(x):
        if isinstance(x, dict):
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
        elif isinstance(x, str) and "priority_queue" in x:
            yield x
    return not any("greater" in x or "lambda" in x or "Compare" in x for x in walk(f.get("body")))


def upsampled(it, t, a, b, n, dist, interp):
    pre = [lt(a, b, True), le(b, size(PATH)), le(ZERO, a)]
    for (v,), cs in cases([t], pre):
        fs = atoms(cs)
        if contra(fs) or dead(fs):
            continue
        if v.op == "seq" and len(v.args) == 1 and v.args[0][0] in ("range", "all") or v is PATH:
            p = v.args[0] if v.op == "seq" else ("all", PATH)
            if p[0] == "all":
                p = ("range", p[1], ZERO, size(p[1]))
            if p[1] is not PATH or sub(p[2], a) is not ZERO or sub(p[3], b) is not ZERO:
                return "the part returned is not the part asked for: " + show(v)[:80]
            if not proved(fs, le(n, sub(b, a))):
                return "too few states are returned"
            continue
        if not proved(fs, le(sub(b, a), n)):
            return "a path with enough states is changed"
        w = filledup(it, v, a, b, n, dist, interp)
        if w:
            return w
    return None


def filledup(it, v, a, b, n, dist, interp):
    segs = sub(sub(b, a), ONE)
    m1 = sub(n, ONE)
    # last state
    if v.op == "astore":
        if sub(v.args[1], m1) is not ZERO or not whole_item(v.args[2], lambda x: is_at(x, sub(b, ONE))):
            return "the last state is not the path's: element %s = %s" % (show(v.args[1])[:40], show(v.args[2])[-60:])
        w = v.args[0]
        if w.op != "fold":
            return "the states are not made by a loop over the segments"
        L, p0, H, ev = w.args
        if p0.op != "seq" or len(p0.args) != 1 or p0.args[0][0] != "rep" or sub(p0.args[0][1], n) is not ZERO:
            return "not made room for the wanted number of states: " + show(p0)[:60]
        if ev.op != "mapped" or ev.args[0] is not H:
            return "a segment does not write a row of states"
        _, k, lo, hi, ix, val = ev.args
        kstep = k.args[4] if k.op == "s" and len(k.args) > 4 else ONE
        off = sub(ix, k)
        car = it.loopinfo.get(L, {}).get("carried", {})
        c = car.get(off)
        if c is None or c[0] is not ZERO or kstep is not ONE or lo is not ZERO:
            return "the rows of states do not follow one another (%s)" % show(ix)[:60]
        adv = sub(c[1], off)
        if adv is not hi and adv is not tmax(ZERO, hi):
            return "a row of %s states is followed by one %s further" % (show(hi)[:40], show(adv)[:40])
        count = hi
    elif v.op == "seq" and len(v.args) == 2 and v.args[0][0] == "loop" and v.args[1][0] == "item":
        if not is_at(v.args[1][1], sub(b, ONE)):
            return "the last state is not the path's: " + show(v.args[1][1])[:60]
        L = v.args[0][1]
        body = v.args[0][2]
        if len(body) != 1 or body[0][0] != "loop" or len(body[0][2]) != 1 or body[0][2][0][0] != "item":
            return "a segment is not a row of states"
        M = body[0][1]
        val = body[0][2][0][1]
        k = ivar(M, val)
        if M.args[0] is not ZERO or M.args[2] is not ONE:
            return "a row does not start at its segment's start"
        count = M.args[1]
    else:
        return "the result is " + show(v)[:100]
    s = ivar(L, count, val)
    if L.args[2] is not ONE:
        return "segments are not taken in order"
    # count = counts[s + c]; interpolation between the segment's ends
    if count.op != "sel" or count.args[0].op != "fold":
        return "the number of states of a segment is " + show(count)[:80]
    seg = count.args[1]
    d = sub(seg, s)
    if s in subterms(d) or add(L.args[0], d) is not ZERO or sub(add(L.args[1], d), segs) is not ZERO:
        return "segments from %s to %s" % (show(L.args[0])[:40], show(L.args[1])[:40])
    want = lambda x: (x.op == "fn" and x.args[0] == "()" and len(x.args) == 5 and x.args[1] is interp and is_at(x.args[2], add(a, seg)) and is_at(x.args[3], add(add(a, seg), ONE))
                      and sub(mul(x.args[4], count), k) is ZERO)
    if not whole_item(val, want):
        return "state k of a segment is not the one at k / count of its way: " + show(val)[-160:]
    return allotted(it, count.args[0], a, b, n, dist, segs)


def whole_item(v, want):
    """v is a state for which want holds, assigned as a whole or member by member"""
    if want(v):
        return True
    if v.op == "upd":
        return all(isinstance(p, tuple) and p[1].op == "fld" and p[1].args[1] == p[0] and want(p[1].args[0]) for p in v.args[1:])
    return False


def allotted(it, counts, a, b, n, dist, segs):
    """every segment once, then one more for the segment with the longest pieces until there are n"""
    Lc, c0, Hc, ev = counts.args
    if c0.op != "seq" or len(c0.args) != 1 or c0.args[0][0] != "rep" or sub(c0.args[0][1], segs) is not ZERO or c0.args[0][2] is not ONE:
        return "the segments do not start with one state each: " + show(c0)[:60]
    trips = sub(Lc.args[1], Lc.args[0]) if Lc.args[2] is ONE else sub(Lc.args[0], Lc.args[1]) if Lc.args[2] is num(-1) else None
    if trips is None or sub(trips, sub(n, sub(b, a))) is not ZERO:
        return "the number of states added is %s" % (show(trips)[:60] if trips is not None else "unknown")
    if ev.op != "astore" or ev.args[0] is not Hc or sub(ev.args[2], sel(Hc, ev.args[1])) is not ONE:
        return "a round does not add one state to a segment: " + show(ev)[:80]
    s = ev.args[1]
    if not (s.op == "fld" and s.args[1] == "second" and s.args[0].op == "sel" and s.args[0].args[1] is mk("fn", "top")):
        return "the segment is not the one at the top of the queue: " + show(s)[:80]
    Hq = s.args[0].args[0]
    q = it.loopinfo.get(Lc, {}).get("carried", {}).get(Hq)
    if q is None:
        return "the queue is not kept"
    q0, q1 = q[0], q[1]
    one = lambda x, y, i: fn("()", dist, sel(PATH, x), sel(PATH, y))
    p = q0.args if q0.op == "seq" else ()
    if len(p) != 1 or p[0][0] != "loop" or len(p[0][2]) != 1 or p[0][2][0][0] != "item":
        return "the queue does not start with an entry per segment: " + show(q0)[:80]
    L, r = p[0][1], p[0][2][0][1]
    i = ivar(L, r)
    j = fld(r, "second")
    o = sub(j, i)
    if L.args[2] is not ONE or i in subterms(o) or add(L.args[0], o) is not ZERO or sub(add(L.args[1], o), segs) is not ZERO:
        return "the queue's entries are for segments %s to %s" % (show(L.args[0])[:40], show(L.args[1])[:40])
    length = lambda k: fn("()", dist, sel(PATH, add(a, k)), sel(PATH, add(add(a, k), ONE)))
    if fld(r, "first") is not length(j):
        return "an entry starts with " + show(fld(r, "first"))[:80]
    p = q1.args if q1.op == "seq" else ()
    if len(p) != 2 or p[0] != ("all", fn("pop", Hq)) or p[1][0] != "item":
        return "a round does not replace the queue's top: " + show(q1)[:80]
    r = p[1][1]
    if fld(r, "second") is not s:
        return "the new entry is for another segment: " + show(fld(r, "second"))[:60]
    if sub(mul(fld(r, "first"), add(sel(Hc, s), ONE)), length(s)) is not ZERO and fld(r, "first") is not mul(length(s), fn("inv", add(sel(Hc, s), ONE))):
        return "the new entry's length is " + show(fld(r, "first"))[:100]
    return None


def run(ctx):
    ctx.rule("a round of smoothing leaves the path or drops what lies strictly between two states whose connection was found valid; "
             "resampling gives the first state and, per interval, states at equal ratios up to the next state; "
             "upsampling gives every segment one state, the rest one by one to the segment with the longest pieces, and ends with the last state")
    F = Fns(ctx, "path", "path_utils::")
    A = [mk("s", "arg", i) for i in range(8)]
    fs = F.all("ShortcutSmoothPath")
    ctx.need(fs, "ShortcutSmoothPath")
    for f in fs:
        w = shortcut(F, f)
        for k, m in (("path", "does more than take shortcuts of the given path"), ("checked", "takes shortcuts that were not checked"), ("order", "may cut outside of the path"),
                     ("fraction", "may skip more of the path than allowed"), ("limit", "may not stop"), ("failures", "does not stop after the allowed number of failures")):
            F.ob(f, k, w.get(k), m)
    for name, lo, hi, args in (("ResamplePathPartial", A[1], A[2], A[3:]), ("ResamplePath", ZERO, size(PATH), A[1:])):
        fs = F.all(name)
        ctx.need(fs, name)
        for f in fs:
            it = F.run(f)
            F.ob(f, "states", resampled(it.result, lo, hi, *args[:3]), "does not go through the states asked for")
            F.inbounds(f, it, [le(ZERO, lo)])
            ok = [e for e in it.events if e.kind == "throw" and not all(contra(s) or dead(s) for s in splits(list(e.facts) + [lt(lo, hi, True), le(hi, size(PATH)), le(ZERO, lo)]))]
            F.ob(f, "accepts", "line %s" % ok[0].ln if ok else None, "refuses a part of the path")
    for name, lo, hi, args in (("UpsamplePathPartial", A[1], A[2], A[3:]), ("UpsamplePath", ZERO, size(PATH), A[1:])):
        fs = F.all(name)
        ctx.need(fs, name)
        for f in fs:
            it = F.run(f)
            w = upsampled(it, it.result, lo, hi, *args[:3])
            if not w and not maxqueue(F, f):
                w = "the queue does not give its longest entry first"
            F.ob(f, "states", w, "does not return the wanted states")
    ctx.minimum(12)
