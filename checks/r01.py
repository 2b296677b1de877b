"""R01: random number generators are their published algorithms, and forget their past when they are seeded."""
from .numeric import *

ASSUMPTIONS = ["little is assumed about values: words are compared as formulas of shifts, sums, products and exclusive ors of 64 bits"]
ME = mk("s", "init", mk("var", "this"))
Q = "arc_helpers::"
K = 0x9E3779B97F4A7C15


# ---- normal form of words
def parts(t, out):
    """the terms of an exclusive or, pairs cancelled"""
    if t.op == "fn" and t.args[0] == "^":
        for x in t.args[1:]:
            parts(x, out)
    elif t in out:
        out.remove(t)
    else:
        out.append(t)
    return out


def norm(t, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = t
    if t.op == "fn":
        xs = [norm(x, memo) if isinstance(x, Term) else x for x in t.args[1:]]
        o = t.args[0]
        if o == "^":
            ps = []
            for x in xs:
                parts(x, ps)
            r = xor(ps)
        elif o in ("<<", ">>") and xs[0].op == "fn" and xs[0].args[0] == "^":
            r = xor([fn(o, x, xs[1]) for x in parts(xs[0], [])])
        elif o in ("&", "|"):
            r = fn(o, *sorted(xs, key=show))
        elif o == "narrow" and show(xs[0]).strip("'") in ("unsigned long", "unsigned long long"):
            r = xs[1]
        else:
            r = fn(o, *xs)
    elif t.op == "poly":
        r = ZERO
        for mon, k in t.args:
            y = num(k)
            for x, e in mon:
                z = norm(x, memo)
                y = mul(y, z if e == 1 else mk("poly", (((z, e),), 1)))
            r = add(r, y)
    elif t.op in ("sel", "astore"):
        r = mk(t.op, *[norm(x, memo) for x in t.args])
    memo[t] = r
    return r


def xor(ps):
    if not ps:
        return ZERO
    return ps[0] if len(ps) == 1 else fn("^", *sorted(ps, key=show))


def X(*xs):
    ps = []
    for x in xs:
        parts(x, ps)
    return norm(fn("^", *ps)) if len(ps) > 1 else norm(ps[0])


def shl(x, k):
    return norm(fn("<<", x, num(k)))


def shr(x, k):
    return norm(fn(">>", x, num(k)))


# ---- the algorithms
def splitmix(s):
    s = add(s, num(K))
    z = mul(X(s, shr(s, 30)), num(0xBF58476D1CE4E5B9))
    z = mul(X(z, shr(z, 27)), num(0x94D049BB133111EB))
    return X(z, shr(z, 31))


def state(it):
    return it.read(it.state, it.this)


def run(ctx):
    ctx.rule("output and next state equal the published formulas; after seeding no part of the state depends on the one before; discarding repeats the same step")
    F = Fns(ctx, "rng", Q)
    S = mk("s", "arg", 0)
    for cls, fields in (("SplitMix64PRNG", None), ("XorShift128PlusPRNG", None), ("XorShift1024StarPRNG", None)):
        one = lambda n: next(iter([f for f in F.all(Q + cls + "::" + n) if not (f["params"] and "PRNG" in f["params"][0]["t"])]), None)
        fs = {n: one(n) for n in ("seed", "discard", "operator()", "min", "max", cls)}
        ctx.need(all(fs.values()), cls)
        for n in ("seed", "discard", cls):
            ts = [short(p["t"]) for p in fs[n]["params"]]
            F.ob(fs[n], cls + " words", None if ts in (["unsigned long"], ["unsigned long long"]) else ", ".join(ts), "does not take a whole word")
        F.ob(fs["min"], cls, same(F.run(fs["min"]).result, ZERO), "is not the smallest word")
        F.ob(fs["max"], cls, biggest(F.run(fs["max"]).result), "is not the largest word")
        step = F.run(fs["operator()"])
        after, out = state(step), norm(step.result)
        flds = sorted({x.args[1] for t in (after, out) for x in subterms(t) if x.op == "fld" and x.args[0] is ME} | updated(after))
        # the state after seeding
        for n in ("seed", cls):
            ctx.analysed(fs[n])
            it = I.Interp(F.prog)
            st = None
            it.run(fs[n], **({"st": general(it)} if n == cls else {}))
            t = state(it)
            bad = None
            for k in flds:
                v = fld(t, k)
                if depends(v):
                    bad = bad or "%s is %s" % (k, show(v)[:80])
            F.ob(fs[n], cls + " forgets", bad, "leaves part of the earlier state behind")
            F.ob(fs[n], cls + " state", seeded(cls, t, S), "does not fill the state from the seed")
        # one step
        F.ob(fs["operator()"], cls + " step", stepped(cls, after, out), "is not a step of the published algorithm")
        # many steps
        F.ob(fs["discard"], cls + " discard", repeated(F.run(fs["discard"]), after, flds), "does not do as many steps as asked for")
    ctx.minimum(20)


def biggest(t):
    return None if t is num(2 ** 64 - 1) or t.op == "fn" and t.args[0] == "limits::max" and show(t.args[1]) in ("'l'", "'m'") else show(t)


def general(it):
    from engine.interp import State
    st = State()
    st.store[mk("var", "this")] = ME
    return st


def updated(t):
    return {k for k, _ in t.args[1:]} if t.op == "upd" else set()


def depends(v):
    """v depends on the state before, other than the sizes of its arrays"""
    if v.op == "mapped":
        src, iv, lo, hi, idx, val = v.args
        if lo is ZERO and hi is size(src) and idx is iv:
            return depends(val)
    v = subst(v, {x: mk("s", "n") for x in subterms(v) if x.op == "fn" and x.args[0] == "size"})
    return any(x is ME for x in subterms(v))


def seeded(cls, t, S):
    get = lambda k: fld(t, k)
    ks = sorted(updated(t))
    if cls == "SplitMix64PRNG":
        return None if any(same(get(k), S) is None for k in ks) else "the state is " + show(t)[:100]
    if cls == "XorShift128PlusPRNG":
        w = [splitmix(S), splitmix(add(S, num(K)))]
        return None if [norm(get(k)) for k in ks] == w else "the words are not the first two of the seeding generator"
    arr = [k for k in ks if get(k).op == "mapped"]
    pos = [k for k in ks if isc(get(k))]
    if len(arr) != 1 or not pos:
        return "the words or the position are not set"
    src, iv, lo, hi, idx, val = get(arr[0]).args
    if norm(val) is not splitmix(add(S, scale(iv, K))) or get(pos[0]) is not ZERO:
        return "the words are not the first of the seeding generator, or the position is not the first"
    return None


def stepped(cls, t, out):
    ks = sorted(updated(t))
    old = [fld(ME, k) for k in ks]
    new = [norm(fld(t, k)) for k in ks]
    if cls == "SplitMix64PRNG":
        if len(ks) != 1 or new[0] is not add(old[0], num(K)):
            return "the state becomes " + show(t)[:100]
        return None if out is splitmix(old[0]) else "the output is " + show(out)[:200]
    if cls == "XorShift128PlusPRNG":
        if len(ks) != 2:
            return "the state becomes " + show(t)[:100]
        s1, s0 = old
        x = X(s1, shl(s1, 23))
        nxt = X(x, s0, shr(x, 18), shr(s0, 5))
        if new != [s0, nxt]:
            return "the state becomes " + show(t)[:200]
        return None if out is add(nxt, s0) else "the output is " + show(out)[:200]
    arr = [k for k in ks if fld(t, k).op == "astore"]
    pos = [k for k in ks if k not in arr]
    if len(arr) != 1 or len(pos) != 1:
        return "the state becomes " + show(t)[:100]
    a, p = fld(ME, arr[0]), fld(ME, pos[0])
    q = norm(fld(t, pos[0]))
    if q not in (norm(fn("&", add(p, ONE), num(15))), fn("imod", add(p, ONE), num(16))):
        return "the position becomes " + show(q)[:100]
    s0, s1 = sel(a, p), sel(a, q)
    x = X(s1, shl(s1, 31))
    v = X(x, s0, shr(x, 11), shr(s0, 30))
    if norm(fld(t, arr[0])) is not norm(mk("astore", a, q, v)):
        return "the words become " + show(fld(t, arr[0]))[:200]
    return None if out in (scale(v, 1181783497276652981),) else "the output is " + show(out)[:200]


def repeated(it, after, flds):
    t = state(it)
    if t is ME:
        return "the state stays the same"
    if not it.loopinfo:
        # in one go: a state that goes up by the same amount in every step
        for k in flds:
            old = fld(ME, k)
            d = sub(fld(after, k), old)
            if not isc(d) or same(fld(t, k), add(old, mul(d, mk("s", "arg", 0)))):
                return "%s becomes %s" % (k, show(fld(t, k))[:100])
        return None
    if len(it.loopinfo) != 1:
        return "%d loops" % len(it.loopinfo)
    (L, info), = it.loopinfo.items()
    n = mk("s", "arg", 0)
    if len(L.args) < 3 or L.args[0] == "w":
        return "the number of steps is not known: " + show(L)[:80]
    lo, hi, st = L.args[:3]
    rounds = sub(hi, lo) if st is ONE else sub(lo, hi)
    if rounds is not n or st not in (ONE, num(-1)):
        return "%s steps" % show(rounds)[:80]
    m, nxt = {}, {}
    zero = {x: lo for h in info["carried"] for x in subterms(h) if x.op == "s" and x.args[0] == "iv"}
    for h, c in info["carried"].items():
        loc = c[2]
        if loc[0] is mk("var", "this") and len(loc[1]) == 1:
            k = loc[1][0]
            start = fld(ME, k)
            if c[0] is not start:
                return "%s does not start as it was" % k
            if h.op == "s":
                m[h] = start
            elif subst(h, zero) is not start:
                return "%s is %s" % (k, show(h)[:80])
            nxt[k] = c[1]
    for k in flds:
        v = nxt.get(k, fld(ME, k))
        v = norm(subst(subst(v, m), zero))
        if v is not norm(fld(after, k)):
            return "%s becomes %s in a step" % (k, show(v)[:150])
    return None
