from engine import interp as I
from engine.affine import Blocks, Unknown, Q, K
from engine.driver import rel
from engine.terms import *

ASSUMPTIONS = ["lengths stay below 2^61, so length arithmetic does not wrap", "std::array/std::vector/std::string element access as documented"]
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
IN = mk("s", "in")


def run_fn(prog, f):
    it = I.Interp(prog)
    it.chars = True
    st = I.State()
    r = mk("var", "in")
    st.store[r] = IN
    it.run(f, args=[("l", I.L_root(r))], st=st)
    return it


class Bits:
    """bit provenance: a value is a list of bits, lowest first; a bit is 0, 1 or an opaque tag"""

    def __init__(self, atom):
        self.atom = atom

    def of(self, t, w=32):
        b = self.bits(t)
        if b is None:
            return None
        return (b + [0] * w)[:w]

    def bits(self, t):
        if isc(t):
            n = int(t.args[0])
            if n < 0:
                return None
            return [(n >> i) & 1 for i in range(40)]
        a = self.atom(t)
        if a is not None:
            return list(a) + [0] * (40 - len(a))
        if t.op == "fn":
            n = t.args[0]
            if n == "narrow":
                w = I.Interp.WID.get(t.args[1].args[0])
                b = self.bits(t.args[2])
                return b and b[:w] + [0] * (40 - w)
            if n == "u8":
                b = self.bits(t.args[1])
                return b and b[:8] + [0] * 32
            if n in ("&", "|", "^"):
                x, y = self.bits(t.args[1]), self.bits(t.args[2])
                if x is None or y is None:
                    return None
                out = []
                for p, q in zip(x, y):
                    if n == "&":
                        r = 0 if p == 0 or q == 0 else p if q == 1 else q if p == 1 else p if p == q else None
                    elif n == "|":
                        r = 1 if p == 1 or q == 1 else p if q == 0 else q if p == 0 else p if p == q else None
                    else:
                        r = p if q == 0 else q if p == 0 else 0 if p == q else None
                    if r is None:
                        return None
                    out.append(r)
                return out
            if n in ("<<", ">>") and isc(t.args[2]):
                k = int(t.args[2].args[0])
                b = self.bits(t.args[1])
                if b is None or k < 0:
                    return None
                return ([0] * k + b)[:40] if n == "<<" else b[k:] + [0] * k
            if n == "idiv" and isc(t.args[2]):
                k = int(t.args[2].args[0])
                b = self.bits(t.args[1])
                if b and k > 0 and k & (k - 1) == 0:
                    s = k.bit_length() - 1
                    return b[s:] + [0] * s
            if n == "imod" and isc(t.args[2]):
                k = int(t.args[2].args[0])
                b = self.bits(t.args[1])
                if b and k > 0 and k & (k - 1) == 0:
                    s = k.bit_length() - 1
                    return b[:s] + [0] * (40 - s)
        if t.op == "poly":
            out = [0] * 40
            for m, c in t.args:
                if c.denominator != 1 or c < 0:
                    return None
                k = int(c)
                if not m:
                    b = [(k >> i) & 1 for i in range(40)]
                elif len(m) == 1 and m[0][1] == 1 and k & (k - 1) == 0:
                    b = self.bits(m[0][0])
                    if b is None:
                        return None
                    s = k.bit_length() - 1
                    b = ([0] * s + b)[:40]
                else:
                    return None
                for i in range(40):
                    if b[i] != 0:
                        if out[i] != 0:
                            return None
                        out[i] = b[i]
            return out
        return None


def table(t):
    return t.op == "vec" and all(isc(x) for x in t.args)


def byte_tag(P):
    return ("byte", P)


def in_atom(t):
    """element of the input of Encode -> eight tagged bits"""
    if t.op == "sel" and t.args[0] is IN:
        return [("I", t.args[1], b) for b in range(8)]
    return None


def run(ctx):
    ctx.rule("Encode and Decode are interpreted abstractly for a symbolic length 3q+r (r = 0,1,2): the loop bodies give every output position as a bit-provenance "
             "expression, composed through the two constant tables. Encode must emit the standard alphabet and padding; Decode of that must give back every bit. "
             "Every table and buffer index must be provably in range for arbitrary input characters and lengths.")
    prog = ctx.program("base64")
    enc = ctx.need(prog.fn("Base64Helpers::Encode"), "Base64Helpers::Encode")[0]
    dec = ctx.need(prog.fn("Base64Helpers::Decode"), "Base64Helpers::Decode")[0]
    ctx.analysed(enc)
    ctx.analysed(dec)
    E, D = run_fn(prog, enc), run_fn(prog, dec)
    we, wd = "%s:%s" % (rel(enc["file"]), enc["ln"]), "%s:%s" % (rel(dec["file"]), dec["ln"])
    bits = Bits(in_atom)
    for r in (0, 1, 2):
        B = Blocks(E.loopinfo, {size(IN): add(mul(num(3), Q), num(r))})
        t = 1 if r else 0
        try:
            n = B.len(E.result)
            ctx.ob("Encode length, remainder %d" % r, sub(n, add(mul(num(4), Q), num(4 * t))) is ZERO, we, "length is %s" % show(n))
        except Unknown as e:
            ctx.ob("Encode length, remainder %d" % r, False, we, "length cannot be established: %s" % e)
        # characters
        code = {}
        for base, cnt, nm in ((K, 4, "block"), (Q, 4 * t, "tail")):
            for j in range(cnt):
                key = "Encode character %d of %s, remainder %d" % (j, nm, r)
                avail = 3 if nm == "block" else r
                want = group(base, j, avail)
                try:
                    v = B.elem(E.result, add(mul(num(4), base), num(j)))
                except Unknown as e:
                    ctx.ob(key, False, we, "cannot be established: %s" % e)
                    continue
                if want is None:
                    ctx.ob(key, isc(v) and v.args[0] == ord("="), we, "should be '=', is %s" % show(v)[:200])
                    continue
                ok, why = False, show(v)[:300]
                if v.op == "sel" and table(v.args[0]):
                    tb = v.args[0]
                    ix = bits.of(v.args[1])
                    if ix is None:
                        why = "index " + why
                    elif any(x != 0 for x in ix[6:]):
                        why = "table index may exceed 63"
                    elif ix[:6] != want:
                        why = "index bits are %s instead of %s" % (bs(ix[:6]), bs(want))
                    elif len(tb.args) < 64 or [int(x.args[0]) for x in tb.args[:64]] != [ord(c) for c in ALPHA]:
                        why = "the table is not the base64 alphabet"
                    else:
                        ok = True
                ctx.ob(key, ok, we, why)
        # decode what Encode produces for this residue
        decode(ctx, D, r, t, wd)
    bounds(ctx, E, "Encode", [x for r in (0, 1, 2) for x in cases(3, r)], we)
    bounds(ctx, D, "Decode", [x for r in (0, 1, 2, 3) for x in cases(4, r)], wd)
    ctx.minimum(60)


def cases(m, r):
    return [({size(IN): num(r)}, None, "length %d" % r), ({size(IN): add(mul(num(m), Q), num(m + r))}, None, "length %d(q+1)+%d" % (m, r))]


def bs(b):
    return "[" + " ".join(str(x) if isinstance(x, int) else "byte %s bit %d" % (show(x[1]), x[2]) for x in reversed(b)) + "]"


def group(base, j, avail):
    """bits (lowest first) of the j-th 6-bit group of block `base`, or None when it is padding"""
    if avail < 3 and j > avail:
        return None
    out = []
    for k in range(6):
        pos = 6 * j + k  # from the most significant
        i, b = divmod(pos, 8)
        out.append(("I", add(mul(num(3), base), num(i)), 7 - b) if i < avail else 0)
    return list(reversed(out))


def decode(ctx, D, r, t, wd):
    N = add(mul(num(4), Q), num(4 * t))

    def char(P):
        """what Encode put at position P: list of six bits, or '='"""
        for base in (K, Q):
            for j in range(4):
                if sub(P, add(mul(num(4), base), num(j))) is ZERO:
                    if base is K:
                        return group(K, j, 3)
                    if not t:
                        return None
                    g = group(Q, j, r)
                    return "=" if g is None else g
        if t == 0 and sub(P, sub(mul(num(4), Q), ONE)) is ZERO:
            return "letter"
        return None

    def hook(a, i):
        if a is IN:
            c = char(i)
            if c == "=":
                return num(ord("="))
            if c is not None:
                return mk("s", "char", i)
        return None

    B = Blocks(D.loopinfo, {size(IN): N})
    B.selhook = hook
    base_decide = B.decide

    def decide(c):
        c = tobool(c)
        if c.op in ("eq", "not"):
            e = c if c.op == "eq" else c.args[0]
            if e.op == "eq" and e.args[0].op == "poly":
                cs = [a for m, k in e.args[0].args for a, _ in m]
                k = [c0 for m, c0 in e.args[0].args if not m]
                if len(cs) == 1 and cs[0].op == "s" and cs[0].args[0] == "char" and k and abs(k[0]) == ord("="):
                    return FALSE if c.op == "eq" else TRUE  # an alphabet letter is not '='
        return base_decide(c)
    B.decide = decide

    def atom(tt):
        if tt.op == "sel" and table(tt.args[0]):
            ix = tt.args[1]
            if ix.op == "fn" and ix.args[0] == "u8":
                ix = ix.args[1]
            if ix.op == "s" and ix.args[0] == "char":
                c = char(ix.args[1])
                tb = tt.args[0]
                if isinstance(c, list) and len(tb.args) > max(map(ord, ALPHA)) and all(int(tb.args[ord(ch)].args[0]) == k for k, ch in enumerate(ALPHA)):
                    return c + [0] * 26
        return None
    bits = Bits(atom)
    try:
        n = B.len(D.result)
        ctx.ob("Decode length, remainder %d" % r, sub(n, add(mul(num(3), Q), num(r))) is ZERO, wd, "length is %s" % show(n))
    except Unknown as e:
        ctx.ob("Decode length, remainder %d" % r, False, wd, "length cannot be established: %s" % e)
    for base, cnt, nm in ((K, 3, "block"), (Q, r, "tail")):
        for j in range(cnt):
            key = "Decode byte %d of %s, remainder %d" % (j, nm, r)
            P = add(mul(num(3), base), num(j))
            try:
                v = B.elem(D.result, P)
            except Unknown as e:
                ctx.ob(key, False, wd, "cannot be established: %s" % e)
                continue
            b = bits.of(v)
            want = [("I", P, k) for k in range(8)]
            ctx.ob(key, b is not None and b[:8] == want, wd, "bits are %s" % (bs(b[:8]) if b else "unknown: " + show(v)[:300]))


def bounds(ctx, it, name, cases, w):
    seen = {}
    for e in it.events:
        if e.kind != "index":
            continue
        at = "%s:%s" % (rel(e.file), e.ln)
        base = e.base
        k = (e.ln, e.idx, "tab" if table(base) else "buf")
        if k in seen:
            continue
        seen[k] = True
        label = "%s index #%d" % (name, len(seen))
        if table(base):
            b = Bits(lambda t: [("x", t, i) for i in range(8)] if (t.op == "fn" and t.args[0] == "u8" and t.args[1].op == "sel" and t.args[1].args[0] is IN)
                     or (name == "Encode" and t.op == "sel" and t.args[0] is IN) else None)
            ix = b.of(e.idx)
            top = None if ix is None else sum(1 << i for i, x in enumerate(ix) if x != 0)
            ctx.ob(label + " into a table", top is not None and top < len(base.args), at,
                   "the table has %d entries, the index is %s" % (len(base.args), "not bounded (a plain char may be negative)" if top is None else "up to %d" % top))
            continue
        bad = None
        for asg, _, cn in cases:
            B = Blocks(it.loopinfo, asg)
            try:
                pads = pad_cases(B, it, name, cn)
                for pad in pads:
                    B2 = Blocks(it.loopinfo, dict(asg, **{}))
                    B2.assign.update(pad)
                    J = mk("s", "j")
                    m = {}
                    for d in e.loops:
                        n = B2.trips(d)
                        m[it.loopinfo[d]["iv"]] = add(d.args[0], mul(d.args[2], J))
                        B2.facts = [le(ZERO, Q, True), le(ZERO, J, True), lt(J, n, True)]
                    facts = B2.facts if e.loops else [le(ZERO, Q, True)]
                    fs = [B2.R(subst(f, m)) for f in e.facts]
                    if any(f is FALSE for f in fs):
                        continue
                    idx = B2.R(subst(e.idx, m))
                    x = base
                    while x.op == "astore":
                        x = x.args[0]
                    sz = B2.len(x) if x.op != "s" or x is IN else B2.len(it_size_base(it, x))
                    hi = le(idx, sz, True) if base is IN and name == "Decode" else lt(idx, sz, True)
                    fs2 = facts + [f for f in fs if not isc(f)]
                    if not (entails(fs2, le(ZERO, idx, True)) and entails(fs2, hi)):
                        bad = "%s: index %s of %s elements" % (cn, show(idx)[:120], show(sz)[:120])
            except Unknown as x:
                bad = "%s: %s" % (cn, x)
            if bad:
                break
        ctx.ob(label + " into a buffer", bad is None, at, bad or "")


def it_size_base(it, h):
    """size of a value carried around a loop is the size it had before"""
    for d, i in it.loopinfo.items():
        for hh, (p0, ev, k) in i["carried"].items():
            if hh is h:
                return p0
    return h


def pad_cases(B, it, name, cn):
    """Decode: the last character of the input is arbitrary, so both outcomes of the '=' test are considered"""
    if name != "Decode":
        return [{}]
    out = []
    last = eq(sel(IN, sub(size(IN), ONE)), num(ord("=")))
    for v in (TRUE, FALSE):
        out.append({last: v})
    return out
