"""numeric comparison helpers: case expansion, polyhedral facts, sums and element-wise values"""
from engine import eigen as E
from engine import interp as I
from engine import linear
from engine.driver import rel
from engine.terms import *
from .logic import *

BOOL = ("lt", "le", "lei", "eq", "not", "and", "or", "b")
IX = mk("s", "ix")


def nofacts(ts):
    return []


def flat(t, c, v):
    """t with condition c, where it is used as a number, replaced by its value"""
    m = {}
    for s in outer(t):
        if s.op == "poly" and any(x is c for mon, _ in s.args for x, _ in mon):
            r = ZERO
            for mon, k in s.args:
                y = num(k)
                for x, e in mon:
                    y = mul(y, (ONE if v else ZERO) if x is c else x if e == 1 else mk("poly", (((x, e),), 1)))
                r = add(r, y)
            m[s] = r
    return subst(t, m) if m else t


def dead(cs, about=nofacts):
    fs = list(cs) + about(cs)
    return all(contra(x) or linear.empty(x) for x in splits(fs))


def known(cs, goals, extra=(), about=nofacts):
    goals = [g for g in goals if g is not TRUE]
    fs = list(cs) + about(list(cs) + list(goals)) + list(extra)
    return all(all(linear.implied(x, g) or contra(x) or linear.empty(x) for x in splits(fs)) for g in goals)


def whole(t):
    """t is an integer: a combination of sizes and loop counters"""
    if isc(t):
        return t.args[0] == int(t.args[0])
    ok = lambda x: x.op == "fn" and x.args[0] in ("size", "count", "cols", "rows") or x.op == "s" and x.args[0] in ("iv", "ix")
    if t.op == "poly":
        return all(k == int(k) and all(e > 0 and ok(x) for x, e in mon) for mon, k in t.args)
    return ok(t)


def expand(ts, conds=(), depth=14, about=nofacts):
    """all cases of the values ts: conditionals, minima and maxima inside them resolved"""
    ts, conds = list(ts), list(conds)
    c = m = None
    for t in ts + conds:
        for s in sorted(outer(t), key=lambda x: len(show(x))):
            if s.op == "fn" and s.args[0] in ("min", "max") and len(s.args) >= 3 and not any(x.op == "ite" for x in outer(s)):
                m, c = s, le(s.args[1], s.args[2], whole(sub(s.args[1], s.args[2])))
            elif s.op == "ite" and not any(x.op == "ite" for x in outer(s.args[0])):
                c = s.args[0]
            elif s.op == "poly":
                bs = [x for mon, _ in s.args for x, _ in mon if x.op in BOOL and not any(y.op == "ite" for y in outer(x))]
                if bs:
                    c = bs[0]
            if c is not None:
                break
        if c is not None:
            break
    if c is None or not depth:
        yield ts, conds
        return
    for k, cc in enumerate((c, lnot(c))):
        f = lambda x: dunder(flat(x, c, k == 0), cc)
        if m is not None:
            pick = m.args[1 if (k == 0) == (m.args[0] == "min") else 2]
            if len(m.args) > 3:
                pick = fn(m.args[0], pick, *m.args[3:])
            f = lambda x: subst(x, {m: pick})
        ncs = [f(x) for x in conds] + [cc]
        if FALSE in ncs or dead(ncs, about):
            continue
        yield from expand([f(x) for x in ts], ncs, depth - 1, about)


def sums(t):
    """t with every loop that adds up a term written as start + sum(rounds, term)"""
    for _ in range(60):
        fs = [s for s in outer(t) if s.op == "fold" and s.args[0].args[0] != "w" and len(s.args[0].args) >= 3]
        m = {}
        for s in fs:
            L, p0, H, ev = s.args
            lo, hi, step = L.args[:3]
            d = sub(sums(ev), H)
            if step not in (ONE, num(-1)) or H in subterms(d):
                continue
            iv = [x for x in subterms(ev) if x.op == "s" and x.args[0] == "iv" and x.args[2:] == (lo, hi, step)]
            body = subst(d, {x: add(IX, lo) if step is ONE else sub(lo, IX) for x in iv})
            n = sub(hi, lo) if step is ONE else sub(lo, hi)
            if step is not ONE:
                body = subst(body, {IX: sub(sub(n, ONE), IX)})
            m[s] = add(p0, total(n, body))
        if not m:
            return t
        t = subst(t, m)
    return t


def norms(t):
    """|v| written with the canonical sign of v"""
    m = {s: fn("norm", E.signless(s.args[1])) for s in subterms(t) if s.op == "fn" and s.args[0] == "norm" and len(s.args) == 2}
    m = {k: v for k, v in m.items() if k is not v}
    return subst(t, m) if m else t


def counts(t):
    """rounds of a counting loop as a number"""
    m = {}
    for s in outer(t):
        if s.op == "fn" and s.args[0] == "count" and s.args[1].op == "loop" and s.args[1].args[2] in (ONE, num(-1)):
            lo, hi, k = s.args[1].args[:3]
            d = sub(hi, lo) if k is ONE else sub(lo, hi)
            m[s] = ite(le(ZERO, d, True), d, ZERO)
    return subst(t, m) if m else t


def part(v, i):
    """component i of a combination of vectors"""
    if v.op == "poly" and all(sum(e for x, e in mon) == 1 for mon, _ in v.args):
        r = ZERO
        for mon, k in v.args:
            r = add(r, scale(sel(mon[0][0], i), k))
        return r
    return sel(v, i)


def comps(t, dim):
    """|v| written as the root of the sum of the squares of the components"""
    for _ in range(4):
        m = {}
        for s in subterms(t):
            if s.op == "fn" and s.args[0] == "norm" and len(s.args) == 2:
                q = ZERO
                for i in range(dim):
                    e = part(s.args[1], num(i))
                    q = add(q, mul(e, e))
                m[s] = fn("sqrt", q)
        if not m:
            return t
        t = subst(t, m)
    return t


def cancel(t):
    """x * 1/x is 1 (for an x that is not 0)"""
    if t.op != "poly":
        return t
    r = ZERO
    for mon, k in t.args:
        d = dict(mon)
        for x in list(d):
            i = mk("fn", "inv", x)
            if i in d and d[x] > 0 and d[i] > 0:
                e = min(d[x], d[i])
                d[x] -= e
                d[i] -= e
        y = num(k)
        for x, e in d.items():
            if e:
                y = mul(y, x if e == 1 else mk("poly", (((x, e),), 1)))
        r = add(r, y)
    return r


def total(n, body):
    """sum over IX = 0..n-1 of body"""
    if body is ZERO:
        return ZERO
    if isc(n) and n.args[0] <= 0:
        return ZERO
    return mk("fn", "sum", n, norms(body))


def eqcase(a, b, cs, about=nofacts):
    if sub(a, b) is ZERO:
        return True
    m = {}
    for s in subterms(a) | subterms(b):
        if s.op == "fn" and s.args[0] == "sum" and known(cs, [le(s.args[1], ZERO)], about=about):
            m[s] = ZERO
    if m and sub(subst(a, m), subst(b, m)) is ZERO:
        return True
    try:
        return known(cs, [eq(sub(a, b), ZERO)], about=about)
    except Exception:
        return False


def same(a, b, pre=(), about=nofacts):
    """a and b are equal in every case; else the first case where they may differ"""
    for (x, y), cs in expand([a, b], list(pre), about=about):
        if dead(cs, about):
            continue
        if not eqcase(x, y, cs, about):
            return " and ".join(show(c) for c in cs)[:160] + " => " + show(x)[:160] + " instead of " + show(y)[:160]
    return None


def agree(p, q, pre=(), about=nofacts):
    """conditions p and q are equivalent; else a case where they differ"""
    p, q = tobool(p), tobool(q)
    for x, y in ((p, lnot(q)), (lnot(p), q)):
        for _, cs in expand([], list(pre) + [x, y], about=about):
            if not dead(cs, about):
                return " and ".join(show(c) for c in cs)[:300]
    return None


def elem(t, i):
    if t.op == "ite":
        return ite(t.args[0], elem(t.args[1], i), elem(t.args[2], i))
    return sel(t, i)


def vecsame(t, n, body, pre=(), about=nofacts):
    """t is a list of n elements, body (in IX) each; else what is wrong"""
    for (x, nn), cs in expand([t, n], list(pre), about=about):
        if dead(cs, about):
            continue
        w = same(counts(size(x)), nn, cs, about)
        if w:
            return "size: " + w
        i = [le(ZERO, IX), le(add(IX, ONE), nn)]
        w = same(norms(sums(elem(x, IX))), norms(body), cs + i, about)
        if w:
            return "element: " + w
    return None


def safe(it, pre=()):
    """element accesses and unsigned differences that may go wrong"""
    for e in it.events:
        if e.kind not in ("index", "usub"):
            continue
        fs = list(pre) + list(e.facts)
        if e.kind == "index":
            if e.at or getattr(e, "eigen", False):
                continue
            n = size(e.base)
            for L in e.loops:
                for h, z in it.loopinfo.get(L, {}).get("sized", {}).items():
                    n = subst(n, {mk("fn", "size", h): z})
            if not within(fs, [(ZERO, e.idx), (add(e.idx, ONE), n)]):
                yield e, "element %s of %s" % (show(e.idx)[:60], show(e.base)[:60])
        elif not within(fs, [(e.b, e.a)]):
            yield e, "%s - %s below zero" % (show(e.a)[:60], show(e.b)[:60])


def within(fs, pairs):
    """x <= y for all the pairs of integers in every case"""
    if known(fs + counters([t for p in pairs for t in p]), [le(x, y) for x, y in pairs]):
        return True
    for ts, cs in expand([t for p in pairs for t in p], [f for f in fs if not any(x.op == "fn" and x.args[0] in ("min", "max") for x in outer(f))]):
        cs = list(cs) + counters(ts)
        if not dead(cs) and not known(cs, [le(x, y) for x, y in zip(ts[::2], ts[1::2])]):
            return False
    return True


def counters(ts):
    """bounds of the loop counters in the terms ts (a counter's last value included)"""
    out, todo, seen = [], list(ts), set()
    while todo:
        for x in subterms(todo.pop()):
            if x in seen:
                continue
            seen.add(x)
            L = None
            if x.op == "s" and x.args[0] == "iv" and len(x.args) == 5:
                L = x.args[2:]
            elif x.op == "s" and x.args[0] == "last" and x.args[1].op == "loop" and len(x.args[1].args) >= 3:
                L = x.args[1].args[:3]
            if L is not None and L[2] is ONE:
                out.append(le(L[0], x, True))
    return [f for f in out if f is not TRUE]


def canon(t):
    """a transform's parts under one name each"""
    m = {}
    for s in subterms(t):
        if s.op == "fld" and s.args[1] == "<translation>":
            m[s] = mk("fn", "trans", s.args[0])
        elif s.op == "fld" and s.args[1] in ("<rotation>", "<linear>"):
            m[s] = mk("fn", "quat", s.args[0])
    t = subst(t, m)
    m = {s: s.args[1] for s in subterms(t) if s.op == "fn" and s.args[0] == "toquat" and s.args[1].op == "fn" and s.args[1].args[0] == "quat"}
    return subst(t, m)


class Fns:
    """the overloads of a set of helpers, run symbolically"""

    def __init__(self, ctx, tu, ns):
        self.ctx, self.prog, self.ns = ctx, ctx.program(tu), ns
        self.runs = {}

    def all(self, name):
        q = name if "::" in name else self.ns + name
        return [f for f in self.prog.funcs if f["q"] == q and f.get("body") is not None]

    def pick(self, name, *pats):
        """the overload whose parameter types contain the given words"""
        for f in self.all(name):
            if len(f["params"]) == len(pats) and all(all(w in p["t"] for w in pat.split("&")) for p, pat in zip(f["params"], pats)):
                return f
        self.ctx.need(False, "%s(%s)" % (name, ", ".join(pats)))

    def run(self, f, pre=(), **kw):
        k = id(f)
        if k not in self.runs:
            self.ctx.analysed(f)
            it = I.Interp(self.prog, **kw)
            it.run(f, facts=list(pre))
            self.runs[k] = it
        return self.runs[k]

    def ob(self, f, key, bad, msg):
        n = f["q"].split("::")[-1]
        sig = ", ".join(short(p["t"]) for p in f["params"])
        self.ctx.ob("%s(%s): %s" % (n, sig, key), not bad, "%s:%s %s" % (rel(f["file"]), f["ln"], n), "%s(%s) %s" % (n, sig, msg), bad or "")

    def inbounds(self, f, it, pre=()):
        bad = next(iter(safe(it, pre)), None)
        self.ob(f, "accesses", "line %s: %s" % (bad[0].ln, bad[1]) if bad else None, "reads outside of its arguments")


def short(t):
    import re
    t = t.replace("const ", "").replace("&", "").strip()
    t = re.sub(r", std::allocator<.*>(?=>$)", "", t)
    t = re.sub(r"Eigen::Matrix<double, (-?\d+), (-?\d+).*?>", lambda m: "matrix %s x %s" % (m.group(1), m.group(2)), t)
    return t[:60].strip()
