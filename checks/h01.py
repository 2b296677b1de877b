"""H01: bits of words, lookups with a default, and color channels."""
from .numeric import *

ASSUMPTIONS = ["positions are below the width of the word", "arithmetic on channels is exact and no value is NaN"]
A = lambda i: mk("s", "arg", i)
THIS = mk("s", "init", mk("var", "this"))
N = 72
WIDTH = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64,
         "char": 8, "signed char": 8, "short": 16, "int": 32, "long": 64, "long long": 64}


# ---- words as lists of bits: 0, 1, (i, flipped) for a bit of the given word
class Unknown(Exception):
    pass


def lits(n):
    return [(n >> i) & 1 for i in range(N)]


def flip(b):
    return 1 - b if isinstance(b, int) else (b[0], not b[1])


def conj(a, b):
    if a == 0 or b == 0 or b == flip(a):
        return 0
    if a == 1 or a == b:
        return b
    if b == 1:
        return a
    raise Unknown("a bit depends on two bits")


def word(t, env, w):
    """bits of t with the position and the value to set in env"""
    t = subst(t, env)
    if isc(t):
        if t.args[0] != int(t.args[0]):
            raise Unknown(show(t))
        return lits(int(t.args[0]))
    if t is A(0):
        return [(i, False) if i < w else 0 for i in range(N)]
    if t.op == "ite":
        c = truth(t.args[0], env, w)
        if c in (0, 1):
            return word(t.args[1 if c else 2], env, w)
        one, two = word(t.args[1], env, w), word(t.args[2], env, w)
        return [mux(c, x, y) for x, y in zip(one, two)]
    if t.op in ("lt", "le", "lei", "eq", "not", "b", "and", "or"):
        return [truth(t, env, w)] + [0] * (N - 1)
    if t.op == "fn":
        o, xs = t.args[0], t.args[1:]
        if o in ("&", "|", "^"):
            a, b = (word(x, env, w) for x in xs)
            if o == "&":
                return [conj(x, y) for x, y in zip(a, b)]
            if o == "|":
                return [flip(conj(flip(x), flip(y))) for x, y in zip(a, b)]
            r = []
            for x, y in zip(a, b):
                if isinstance(x, int):
                    x, y = y, x
                if isinstance(y, int):
                    r.append(flip(x) if y else x)
                elif x[0] == y[0]:
                    r.append(int(x != y))
                else:
                    raise Unknown("a bit depends on two bits")
            return r
        if o == "~":
            return [flip(x) for x in word(xs[0], env, w)]
        if o in ("<<", ">>"):
            k = const(word(xs[1], env, w))
            a = word(xs[0], env, w)
            if k >= N or k < 0:
                raise Unknown("shift by %s" % k)
            return ([0] * k + a)[:N] if o == "<<" else a[k:] + [a[-1]] * k
        if o == "narrow":
            k = WIDTH.get(xs[0].args[0] if isinstance(xs[0], Term) else xs[0])
            a = word(xs[1], env, w)
            if k is None:
                raise Unknown(show(t))
            return a[:k] + [0 if "unsigned" in show(xs[0]) else a[k - 1]] * (N - k)
    if t.op == "poly":
        # one unknown bit: its two values
        vals = []
        atoms_ = {x: word(x, env, w) for mon, _ in t.args for x, _ in mon}
        free = {b[0] for a in atoms_.values() for b in a if not isinstance(b, int)}
        if len(free) > 1:
            raise Unknown("arithmetic on several bits")
        for v in (0, 1):
            n = subst(t, {x: num(const([b if isinstance(b, int) else v ^ b[1] for b in a])) for x, a in atoms_.items()})
            if not isc(n):
                raise Unknown(show(n))
            vals.append(lits(int(n.args[0])))
        return [x if x == y else ((min(free), False) if y else (min(free), True)) for x, y in zip(*vals)]
    raise Unknown(show(t)[:80])


def mux(c, x, y):
    if x == y:
        return x
    if isinstance(x, int) and isinstance(y, int):
        return c if x else flip(c)
    raise Unknown("a bit depends on two bits")


def const(bits):
    if not all(isinstance(b, int) for b in bits):
        raise Unknown("not a constant")
    n = sum(b << i for i, b in enumerate(bits))
    return n - (1 << N) if bits[-1] else n


def truth(c, env, w):
    """0, 1 or a bit"""
    c = subst(c, env)
    if c is TRUE or c is FALSE:
        return int(c is TRUE)
    if c.op == "not":
        return flip(truth(c.args[0], env, w))
    if c.op == "and":
        r = 1
        for x in c.args:
            r = conj(r, truth(x, env, w))
        return r
    if c.op == "or":
        r = 0
        for x in c.args:
            r = flip(conj(flip(r), flip(truth(x, env, w))))
        return r
    xs = [x for x in c.args if isinstance(x, Term)]
    if c.op == "b":
        xs = [xs[0]]
    ws = [word(x, env, w) for x in xs]
    free = {b[0] for a in ws for b in a if not isinstance(b, int)}
    if len(free) > 1:
        raise Unknown("the answer depends on several bits")
    r = []
    for v in (0, 1):
        ns = [const([b if isinstance(b, int) else v ^ b[1] for b in a]) for a in ws]
        if c.op == "b":
            r.append(ns[0] != 0)
        elif c.op == "eq":
            r.append(ns[0] == (ns[1] if len(ns) > 1 else 0))
        elif c.op in ("lt", "le", "lei"):
            a, b = (ns + [0])[:2]
            r.append(a < b if c.op == "lt" else a <= b)
        else:
            raise Unknown(show(c)[:80])
    return int(r[0]) if r[0] == r[1] else (min(free), not r[1])


def bits(F):
    pos = A(1)
    for f in F.all("SetBit"):
        w = WIDTH[short(f["params"][0]["t"])]
        r = runbits(F, f)
        bad = None
        for p in range(w):
            for v in (0, 1):
                try:
                    got = word(r, {pos: num(p), tobool(A(2)): TRUE if v else FALSE, A(2): num(v)}, w)
                    want = [v if i == p else (i, False) for i in range(w)]
                    bad = bad or next(("position %d set to %d: bit %d is %s" % (p, v, i, say(a)) for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
                except Unknown as e:
                    bad = bad or "position %d: %s" % (p, e)
        F.ob(f, "only that bit", bad, "does not set exactly the bit asked for")
    for f in F.all("GetBit"):
        w = WIDTH[short(f["params"][0]["t"])]
        r = runbits(F, f)
        bad = None
        for p in range(w):
            try:
                got = truth(tobool(r), {pos: num(p)}, w)
                if got != (p, False):
                    bad = bad or "position %d gives %s" % (p, say(got))
            except Unknown as e:
                bad = bad or "position %d: %s" % (p, e)
        F.ob(f, "that bit", bad, "does not give the bit asked for")


def say(b):
    return str(b) if isinstance(b, int) else "%sbit %d of the word" % ("not " if b[1] else "", b[0])


def runbits(F, f):
    F.ctx.analysed(f)
    it = I.Interp(F.prog)
    it.bits = True
    it.run(f)
    return it.result


# ---- colors
def exact(t):
    """without rounding to float"""
    for _ in range(40):
        m = {s: s.args[1] for s in subterms(t) if s.op == "fn" and s.args[0] == "f32"}
        if not m:
            return t
        t = subst(t, m)
    return t


def trim(x):
    return ite(lt(x, ZERO), ZERO, ite(lt(ONE, x), ONE, x))


def channels(F, f, t, want, msg, pre=(), key="channels"):
    bad = None
    for k, w in zip("rgba", want):
        b = same(exact(fld(t, k)), w, pre)
        bad = bad or (b and "%s: %s" % (k, b))
    F.ob(f, key, bad, msg)


def colors(F):
    q = lambda x: mul(x, inv(num(255)))
    isint = lambda f, i: "char" in f["params"][i]["t"]
    own = lambda f: [q(A(i)) if isint(f, i) else trim(A(i)) for i in range(len(f["params"]))]
    for n in ("MakeFromFloatColors", "MakeFromHexColors", "MakeFromMixedColors"):
        fs = F.all("arc_helpers::RGBAColorBuilder::" + n)
        F.ctx.need(fs, n)
        for f in fs:
            pre = [x for i in range(4) if isint(f, i) for x in (le(ZERO, A(i)), le(A(i), num(255)))]
            channels(F, f, F.run(f).result, own(f), "does not give the channels asked for, limited to 0..1", pre)
    for f in F.all("arc_helpers::RGBAColor::RGBAColor"):
        if len(f["params"]) == 1:  # copies
            continue
        it = F.run(f)
        pre = [x for i in range(len(f["params"])) if isint(f, i) for x in (le(ZERO, A(i)), le(A(i), num(255)))]
        w = own(f) + [ONE] if f["params"] else [ZERO] * 4
        channels(F, f, whole_(it), w, "does not give the channels asked for, limited to 0..1", pre)
    for k in "RGBA":
        for n, lo in (("Set%s", lambda f: trim(A(0))), ("Set%sHex", lambda f: q(A(0)))):
            fs = F.all("arc_helpers::RGBAColor::" + n % k)
            F.ctx.need(fs, n % k)
            for f in fs:
                me = F.run(f)
                t = whole_(me)
                pre = [le(ZERO, A(0)), le(A(0), num(255))] if "Hex" in n else []
                want = [lo(f) if c == k.lower() else fld(THIS, c) for c in "rgba"]
                channels(F, f, t, want, "does not change exactly that channel", pre)
        c = fld(THIS, k.lower())
        for f in F.all("arc_helpers::RGBAColor::Get" + k):
            F.ob(f, "value", same(F.run(f).result, c), "is not that channel")
        for f in F.all("arc_helpers::RGBAColor::Get%sHex" % k):
            F.ob(f, "value", hexof(F.run(f).result, c), "is not that channel in 0..255")
    for f in F.all("ConvertColor"):
        channels(F, f, F.run(f).result, [trim(fld(A(0), c)) for c in "rgba"], "does not keep the channels")
    for f in F.all("Multiply"):
        channels(F, f, F.run(f).result, [trim(mul(fld(A(0), c), A(1))) for c in "rgb"] + [fld(A(0), "a")], "does not scale the channels and keep alpha")
    for f in F.all("InterpolateColor"):
        t = trim(A(2))
        channels(F, f, F.run(f).result, [trim(add(mul(fld(A(0), c), sub(ONE, t)), mul(fld(A(1), c), t))) for c in "rgba"],
                 "is not on the straight line at the limited ratio")
    for f in F.all("arc_helpers::RGBAColorBuilder::InterpolateHotToCold"):
        lo, hi = A(1), A(2)
        v = ite(lt(A(0), lo), lo, ite(lt(hi, A(0)), hi, A(0)))
        s = mul(sub(v, lo), inv(sub(hi, lo)))
        at = lambda k: add(lo, scale(sub(hi, lo), k))
        four = scale(s, 4)
        r = ite(lt(v, at(.5)), ZERO, ite(lt(v, at(.75)), sub(four, num(2)), ONE))
        g = ite(lt(v, at(.25)), four, ite(lt(v, at(.75)), ONE, sub(num(4), four)))
        b = ite(lt(v, at(.25)), ONE, ite(lt(v, at(.5)), sub(num(2), four), ZERO))
        # compared after multiplication by the length of the range
        t = F.run(f).result
        t = rec({c: times(level(exact(fld(t, c)), sub(hi, lo)), sub(hi, lo)) for c in "rgba"})
        channels(F, f, t, [times(tmin(ONE, tmax(ZERO, x)), sub(hi, lo)) for x in (r, g, b, ONE)], "is not the color of that part of the range", [lt(lo, hi)])
    for f in F.all("GenerateUniqueColor"):
        codes(F, f)
    for f in F.all("arc_helpers::UniqueColorGenerator::next"):
        it = F.run(f)
        me = whole_(it)
        F.ob(f, "next", same(fld(me, "i"), add(fld(THIS, "i"), ONE)), "does not move on to the next color")


def level(t, d):
    """comparisons in t multiplied by d > 0 where they divide by it"""
    v = inv(d)
    m = {}
    for c in subterms(t):
        if c.op in ("lt", "le") and len(c.args) == 1 and any(x is v for x in subterms(c.args[0])):
            m[c] = (lt if c.op == "lt" else le)(times(c.args[0], d), ZERO)
    return subst(t, m) if m else t


def times(t, d):
    """t * d, where t may have d > 0 as a divisor"""
    if t.op == "fn" and t.args[0] in ("min", "max") and len(t.args) == 3:
        return (tmin if t.args[0] == "min" else tmax)(*[times(x, d) for x in t.args[1:]])
    if t.op == "ite":
        return ite(t.args[0], times(t.args[1], d), times(t.args[2], d))
    v = inv(d)
    if t.op != "poly":
        return ONE if t is v else mul(t, d)
    r = ZERO
    for mon, k in t.args:
        x, whole = num(k), True
        for y, e in mon:
            if y is v and e == 1:
                whole = False
            else:
                x = mul(x, y if e == 1 else mk("poly", (((y, e),), 1)))
        r = add(r, mul(x, d) if whole else x)
    return r


def hexof(t, c):
    if t.op == "fn" and t.args[0] == "narrow":
        t = t.args[2]
    if not (t.op == "fn" and t.args[0] in ("round", "trunc0", "floor")):
        return "not rounded: " + show(t)[:80]
    x = exact(t.args[1])
    if t.args[0] != "round":
        x = sub(x, num(.5))
    return same(x, scale(trim(c), 255))


def whole_(it):
    return it.read(it.state, it.this)


def codes(F, f):
    t = F.run(f).result
    code = A(0)
    seen = {}
    bad = None
    for k in range(0, 22):
        v = [exact(subst(fld(t, c), {code: num(k)})) for c in "rgba"]
        if k == 0:
            if any(same(x, y) for x, y in zip(v, (ONE, ONE, ONE, ZERO))):
                bad = bad or "code 0 is not transparent white"
            continue
        if same(v[3], trim(A(1))):
            bad = bad or "code %d does not have the alpha asked for" % k
        rgb = tuple(v[:3])
        if rgb in seen and k <= 20:
            bad = bad or "codes %d and %d have the same color" % (seen[rgb], k)
        seen[rgb] = k
        if any(not isc(x) or not 0 <= x.args[0] <= 1 for x in rgb):
            bad = bad or "code %d: %s" % (k, ", ".join(map(show, rgb))[:100])
    F.ob(f, "codes", bad, "does not give each of the 20 codes a color of its own")


def run(ctx):
    ctx.rule("every bit of the result is a constant or a bit of the given word, per position; every color channel equals its formula")
    F = Fns(ctx, "help", "arc_helpers::")
    for n in ("SetBit", "GetBit"):
        ctx.need(len(F.all(n)) == 4, n + " for words of 8, 16, 32 and 64 bits")
    bits(F)
    ctx.need(len(F.all("RetrieveOrDefault")) == 2, "lookups in maps and unordered maps")
    for f in F.all("RetrieveOrDefault"):
        c = tobool(mk("fn", "haskey", A(0), A(1)))
        F.ob(f, "lookup", same(F.run(f).result, ite(c, sel(A(0), A(1)), A(2))), "is not the stored value, or the default for a missing key")
    for n in ("ConvertColor", "Multiply", "InterpolateColor", "GenerateUniqueColor"):
        ctx.need(F.all(n), n)
    colors(F)
    ctx.minimum(40)
