from engine import eigen, layout as L
from engine.terms import *
from engine.driver import rel
from . import codec, s01

ASSUMPTIONS = ["asserts are enabled, as in the repository's build (NDEBUG is never defined by its build files)",
               "no object takes more than 2^62 bytes of memory", "user supplied element codecs check their own reads"]


def run(ctx):
    ctx.rule("Every raw read of an input buffer in a deserializer must be dominated by a check from which position + length <= buffer size follows; "
             "every object copied to or from as raw bytes must be copied with exactly its own size; every raw write into a buffer must lie inside it.")
    prog = ctx.program("ser")
    ps = codec.pairs(prog)
    codec.expected(ctx, ps, s01.BASIC)
    n = 0
    for label, w, r, me in ps:
        n += bounds(ctx, prog, label, w, r, me)
    ctx.need(n >= 30, "raw buffer reads")


def bounds(ctx, prog, label, w, r, me):
    n = 0
    for side, fn in (("reader", r), ("writer", w)):
        ctx.analysed(fn)
        R = (L.run_reader if side == "reader" else L.run_writer)(prog, fn, this=me)
        seen = {}
        bad, why = wraps(prog, R) if side == "reader" else (set(), [])
        for e in R["events"]:
            at = "%s:%s" % (rel(e.file), e.ln)
            base = "%s %s in %s" % (label, side, e.fn["q"].split("::")[-1] if isinstance(e.fn, dict) else e.fn)
            if e.kind == "rawread" and e.d.get("f") is None:
                n += 1
                goal = le(add(e.pos, e.n), size(L.BUF), True)
                ok = entails([f for f in e.facts if f not in bad] + L.nonneg(goal), goal)
                put(ctx, seen, base + ": read inside the buffer", ok, at, "reads %s bytes at %s with no check that they are inside the buffer%s" % (show(e.n)[:120], show(e.pos)[:120], ("; " + "; ".join(why)) if why else ""))
            elif e.kind == "objbytes":
                if e.loc.op == "Lf" and e.loc.args[1] == "<data>":
                    sc = L.sizeof(prog, e.T)
                    t = e.dt
                    rr, cc = eigen.dims(e.base, t)
                    d = mul(num(sc), mul(L.cnt(rr), L.cnt(cc)))
                    put(ctx, seen, base + ": matrix data copied as raw bytes", sub(L.cnt(e.n), d) is ZERO, at,
                        "%s bytes copied, the matrix holds %s" % (show(e.n)[:120], show(d)[:120]))
                    continue
                s = L.sizeof(prog, e.T)
                if s is not None:
                    put(ctx, seen, base + ": %s copied as raw bytes" % e.T, sub(e.n, num(s)) is ZERO, at,
                        "%s bytes copied %s an object of type %s (%s bytes)" % (show(e.n), "into" if e.role == "dst" else "from", e.T, s))
            elif e.kind == "bufwrite":
                goal = le(add(e.off, e.n), size(e.base), True)
                ok = entails(list(e.facts) + L.nonneg(goal), goal)
                put(ctx, seen, base + ": write inside the temporary buffer", ok, at, "writes %s bytes at %s of a buffer of %s" % (show(e.n)[:120], show(e.off)[:80], show(size(e.base))[:120]))
    return n


def wraps(prog, R):
    """checks that prove nothing because their own unsigned arithmetic may wrap around: (conditions, reasons)"""
    bad, why = set(), []
    top = num(2 ** 64 - 1)
    lim = num(2 ** 62)
    base = [le(size(L.BUF), lim, True), le(ZERO, L.CUR, True)]
    held = []
    for e in R["events"]:
        if e.kind == "objbytes" and e.loc.op == "Lf" and e.loc.args[1] == "<data>":
            rr, cc = eigen.dims(e.base, e.dt)
            d = mul(num(L.sizeof(prog, e.T)), mul(L.cnt(rr), L.cnt(cc)))
            held.append(le(d, lim, True))
    asserts = [e for e in R["events"] if e.kind == "assert"]
    for e in R["events"]:
        if e.kind == "usub" and size(L.BUF) in subterms(e.d["a"]):
            g = le(e.d["b"], e.d["a"], True)
        elif e.kind == "uadd":
            g = le(add(e.d["a"], e.d["b"]), top, True)
        else:
            continue
        fs = [f for f in e.facts if f not in bad]
        if entails(fs + L.nonneg(g) + base + held, g):
            continue
        at = "line %s" % e.ln
        hit = [a.d["cond"] for a in asserts if a.ln == e.ln and a.file == e.file]
        if e.kind == "uadd":
            x = add(e.d["a"], e.d["b"])
            hit += [le(x, size(L.BUF), True), lt(x, size(L.BUF), True)]
        if hit:
            for c in hit:
                bad.add(c)
                bad.update(c.args if c.op == "and" else ())
            why.append("%s %s %s may wrap around (%s)" % (show(e.d["a"])[:60], "-" if e.kind == "usub" else "+", show(e.d["b"])[:60], at))
    return bad, sorted(set(why))


def put(ctx, seen, key, ok, at, msg):
    seen[key] = seen.get(key, 0) + 1
    ctx.ob(key + (" #%d" % seen[key] if seen[key] > 1 else ""), ok, at, msg)
