"""M03: angle helpers work modulo a full turn: results are in range and congruent to what they stand for."""
import math
from fractions import Fraction
from engine import interp as I
from engine.driver import rel
from engine.terms import *
from .logic import *
from . import numeric

ASSUMPTIONS = ["arithmetic is exact (rounding is out of scope)", "angles are finite", "fmod, remainder, floor and friends return what the C standard says"]
NS = "EigenHelpers::"
A = lambda i: mk("s", "arg", i)
P = num(Fraction(repr(math.pi)))
T = mul(num(2), P)  # numbers are taken as they are written, so a half turn is the decimal closest to pi


def periodic(t):
    return t.op == "fn" and (t.args[0] == "wrap" or t.args[0] in ("fmod", "remainder") and t.args[2] is T or
                             t.args[0] == "atan2" and t.args[1].op == "fn" and t.args[1].args[0] == "sin" and t.args[2] is mk("fn", "cos", t.args[1].args[1]))


WHOLE = ("floor", "ceil", "round", "trunc", "rint")


def base(t):
    return t.args[1].args[1] if t.args[0] == "atan2" else t.args[1]


def about(ts):
    """what is known about the periodic and whole-number terms in ts"""
    out = []
    for t in set(x for u in ts for x in outer(u)):
        if t.op != "fn":
            continue
        if periodic(t):
            if t.args[0] == "wrap":
                out += [lt(neg(P), t), le(t, P)]
            elif t.args[0] == "fmod":
                x = t.args[1]
                out += [lt(neg(T), t), lt(t, T), lor(lt(x, ZERO), le(ZERO, t)), lor(lt(ZERO, x), le(t, ZERO))]
            else:
                out += [le(neg(P), t), le(t, P)]
        elif t.args[0] in WHOLE:
            x = t.args[1]
            out += {"floor": [le(t, x), lt(x, add(t, ONE))], "ceil": [le(x, t), lt(t, add(x, ONE))]}.get(t.args[0], [le(t, add(x, ONE)), le(x, add(t, ONE))])
    return out


def turns(d):
    """d is a whole number of full turns"""
    for _ in range(40):
        p = [x for x in outer(d) if periodic(x)]
        if not p:
            break
        x = max(p, key=lambda x: len(show(x)))
        d = subst(d, {x: add(base(x), mul(T, mk("s", "turn", show(x))))})
    for mon, k in poly_of(d).items():
        q = k / cval(T)
        if q.denominator != 1:
            return False
        if len(mon) > 1 or mon and (mon[0][1] != 1 or not (mon[0][0].op == "s" and mon[0][0].args[0] == "turn" or mon[0][0].op == "fn" and mon[0][0].args[0] in WHOLE)):
            return False
    return True


def known(cs, goals, extra=()):
    return numeric.known(cs, goals, extra, about)


def dead(cs):
    return numeric.dead(cs, about)


def expand(ts, conds=()):
    return numeric.expand(ts, conds, about=about)


class Fn:
    def __init__(self, ctx, prog, f, hooked=True):
        self.ctx, self.f = ctx, f
        self.n = f["q"][len(NS):]
        ctx.analysed(f)
        it = I.Interp(prog, hooks={NS + "EnforceContinuousRevoluteBounds": wrap} if hooked else {})
        it.run(f)
        self.r = it.result

    def ob(self, key, ok, msg, detail=""):
        self.ctx.ob("%s: %s" % (self.n, key), ok, "%s:%s %s" % (rel(self.f["file"]), self.f["ln"], self.n), "%s %s" % (self.n, msg), detail)

    def angle(self, spec, lo, hi, strictlo=False, stricthi=False):
        """the result is congruent to spec and lies between lo and hi"""
        n = 0
        for (v,), cs in expand([self.r]):
            if dead(cs):
                continue
            n += 1
            d = " and ".join(show(c) for c in cs)[:200] + " => " + show(v)[:100]
            self.ob("same angle", turns(sub(v, spec)), "gives an angle that differs by something else than full turns", d)
            self.ob("in range", known(cs, [lt(lo, v) if strictlo else le(lo, v), lt(v, hi) if stricthi else le(v, hi)]), "gives an angle out of range", d)
        self.ob("has a value", n >= 1, "gives no angle")


def wrap(it, st, fr, e, q, oloc, args):
    x = it.argv(st, args[0]) if not isinstance(args[0], Term) else args[0]
    return wrapped(x)


def wrapped(x):
    if x.op == "fn" and x.args[0] == "wrap":
        return x
    if any(periodic(y) for y in outer(x)) and not any(y.op == "ite" for y in outer(x)) and known([], [lt(mul(num(-3), P), x), le(x, mul(num(3), P))]):
        return ite(le(x, neg(P)), add(x, T), ite(lt(P, x), sub(x, T), x))
    return mk("fn", "wrap", x)


def run(ctx):
    ctx.rule("every case of an angle helper's result equals the angle it stands for up to full turns, and is bounded by the case's conditions")
    prog = ctx.program("math")
    fs = {}
    for f in prog.funcs:
        if f["q"].startswith(NS) and f.get("body") and "Revolute" in f["q"] and not any("vector" in p["t"] for p in f["params"]):
            fs.setdefault(f["q"][len(NS):], f)
    names = ("EnforceContinuousRevoluteBounds", "ContinuousRevoluteSignedDistance", "ContinuousRevoluteDistance", "AddContinuousRevoluteValues", "GetContinuousRevoluteRange",
             "CheckInContinuousRevoluteRange", "CheckInContinuousRevoluteBounds", "InterpolateContinuousRevolute")
    for n in names:
        ctx.need(n in fs, "angle helper " + n)
    a, b, c = A(0), A(1), A(2)
    F = lambda n, hooked=True: Fn(ctx, prog, fs[n], hooked)
    F("EnforceContinuousRevoluteBounds", False).angle(a, neg(P), P, strictlo=True)
    F("ContinuousRevoluteSignedDistance").angle(sub(b, a), neg(P), P, strictlo=True)
    F("AddContinuousRevoluteValues").angle(add(a, b), neg(P), P, strictlo=True)
    F("GetContinuousRevoluteRange").angle(sub(b, a), ZERO, T, stricthi=True)
    g = F("ContinuousRevoluteDistance")
    n = 0
    for (v,), cs in expand([g.r]):
        if dead(cs):
            continue
        n += 1
        d = " and ".join(show(c) for c in cs)[:200] + " => " + show(v)[:100]
        g.ob("same angle", turns(sub(v, sub(b, a))) or turns(add(v, sub(b, a))), "is not the angle between its arguments", d)
        g.ob("in range", known(cs, [le(ZERO, v), le(v, P)]), "is negative or more than half a turn", d)
    g.ob("has a value", n >= 1, "gives no angle")
    # membership: how far val lies beyond start, going up
    wa, wb, wc = wrapped(a), wrapped(b), wrapped(c)
    up = lambda x, y: ite(le(ZERO, sub(y, x)), sub(y, x), add(sub(y, x), T))
    for n, spec in (("CheckInContinuousRevoluteRange", le(up(wa, wc), b)), ("CheckInContinuousRevoluteBounds", le(up(wa, wc), up(wa, wb)))):
        g = F(n)
        r = tobool(g.r)
        for key, x, y, msg in (("accepts only inside", r, lnot(spec), "accepts an angle outside of the range"), ("accepts all inside", lnot(r), spec, "rejects an angle inside of the range")):
            bad = None
            for _, cs in expand([], [x, y]):
                if not dead(cs):
                    bad = cs
            g.ob(key, bad is None, msg, " and ".join(show(z) for z in bad or ())[:300])
    interpolate(ctx, F("InterpolateContinuousRevolute"), a, b, c)
    ctx.minimum(20)


def interpolate(ctx, g, a, b, r):
    n = 0
    wa, wb = wrapped(a), wrapped(b)
    for (v,), cs in expand([g.r]):
        if dead(cs):
            continue
        n += 1
        d = " and ".join(show(c) for c in cs)[:200] + " => " + show(v)[:100]
        if known(cs, [le(r, ZERO)]):
            v0 = subst(v, {r: ZERO}) if known(cs, [le(ZERO, r)]) else v
            g.ob("starts at the first", turns(sub(v0, a)), "does not give the first angle at (or below) ratio 0", d)
            g.ob("stays in range", known(cs, [le(neg(P), v0), le(v0, P)]), "gives an angle out of range", d)
            continue
        if known(cs, [le(ONE, r)]):
            v1 = subst(v, {r: ONE}) if known(cs, [le(r, ONE)]) else v
            g.ob("ends at the second", turns(sub(v1, b)), "does not give the second angle at (or above) ratio 1", d)
            g.ob("stays in range", known(cs, [le(neg(P), v1), le(v1, P)]), "gives an angle out of range", d)
            continue
        if not known(cs, [le(ZERO, r), le(r, ONE)]):
            g.ob("clamps the ratio", False, "uses ratios outside of 0..1", d)
            continue
        w, v = v, base(v) if periodic(v) else v
        v0 = subst(v, {r: ZERO})
        D = sub(subst(v, {r: ONE}), v0)
        lin = sub(sub(v, v0), mul(D, r)) is ZERO
        g.ob("in proportion", lin and turns(sub(v0, a)) and turns(sub(D, sub(b, a))), "does not move in proportion from the first angle to the second", d)
        g.ob("the shorter way", known(cs, [le(neg(P), D), le(D, P)]), "goes the longer way around", d)
        g.ob("stays in range", known(cs, [le(neg(P), w), le(w, P)], prods(cs + [le(neg(P), D), le(D, P)], r)), "gives an angle out of range", d)
    g.ob("has a value", n >= 3, "does not treat ratios below, inside and above 0..1")


def prods(cs, r):
    """what follows for products with a ratio between 0 and 1"""
    out = []
    for f in atoms(cs + about(cs)):
        if f.op in ("lt", "le") and r not in subterms(f):
            g = neg(f.args[0])  # g >= 0
            out += [le(ZERO, mul(g, r)), le(ZERO, mul(g, sub(ONE, r)))]
    return out
