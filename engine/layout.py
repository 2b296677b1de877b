"""Byte-layout domain: what a serializer appends to its buffer, what a deserializer takes from where, and whether
the second inverts the first.  A buffer is a sequence of parts
  ("bytes", n, value)   n bytes that are the memory image of value
  ("enc", f, value)     what the caller supplied writer f emits for value
  ("loop", d, parts)    parts once per iteration of d
and every read of the input buffer is an event (position, length)."""
import re
from .terms import *
from .interp import Interp, L_f, L_root
from . import interp as I
from . import eigen

SZ = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8,
      "unsigned long": 8, "long long": 8, "unsigned long long": 8, "float": 4, "double": 8, "wchar_t": 4, "char16_t": 2, "char32_t": 4}
BUF = mk("s", "inbuf")
BUF0 = mk("s", "outbuf")
X = mk("s", "x")
CUR = mk("s", "current")


def strip(e):
    while e.get("k") == "cast":
        e = e["e"]
    return e


def pointee(e):
    t = strip(e).get("t", "")
    t = t.rstrip("*").strip().replace("const ", "")
    return t


def sizeof(prog, t):
    if t in SZ:
        return SZ[t]
    r = prog.records.get(t) or prog.records.get("struct " + t)
    if r is not None and r.get("size"):
        return r["size"]
    return None


def split(parts, off):
    """parts -> (before off, from off) or None when off is not on a boundary (a rep part is divisible)"""
    pos = ZERO
    for i, p in enumerate(parts):
        if sub(off, pos) is ZERO:
            return list(parts[:i]), list(parts[i:])
        n = part_size(p)
        nxt = add(pos, n)
        d = sub(off, nxt)
        if p[0] == "rep" and not (isc(d) and d.args[0] >= 0):
            # cut inside the filler
            a = sub(off, pos)
            return list(parts[:i]) + [("rep", a, p[2])], [("rep", sub(n, a), p[2])] + list(parts[i + 1:])
        pos = nxt
    if sub(off, pos) is ZERO:
        return list(parts), []
    return None


class Layout:
    def __init__(self, prog, opaque=()):
        self.prog = prog
        self.it = Interp(prog, opaque=opaque, hooks={"memcpy": self.memcpy, "std::memcpy": self.memcpy, "memmove": self.memcpy,
                                                     "std::memmove": self.memcpy, "()": self.fcall, "__bswap_16": self.bswap,
                                                     "__bswap_32": self.bswap, "__bswap_64": self.bswap, "__builtin_bswap16": self.bswap,
                                                     "__builtin_bswap32": self.bswap, "__builtin_bswap64": self.bswap, "htons": self.bswap,
                                                     "ntohs": self.bswap, "htonl": self.bswap, "ntohl": self.bswap,
                                                     "__uint16_identity": self.ident, "__uint32_identity": self.ident,
                                                     "__uint64_identity": self.ident, "std::copy": self.copy})
        self.reads = []
        self.bad = []

    # --- memory
    def region(self, st, p, e):
        """pointer -> ('buf', loc, off) | ('obj', loc)"""
        if p.op == "it":
            return ("buf", p.args[0], p.args[1])
        if p.op != "addr":
            return ("?", p)
        l = p.args[0]
        if l.op == "Li":
            b = self.it.read(st, l.args[0])
            if b is BUF or b.op == "seq":
                return ("buf", l.args[0], l.args[1])
        b = self.it.read(st, l)
        if b is BUF or b.op == "seq":
            return ("buf", l, ZERO)
        return ("obj", l)

    def load(self, st, src, n, T, e):
        it = self.it
        if src[0] == "obj":
            return it.read(st, src[1])
        if src[0] == "buf":
            b = it.read(st, src[1])
            if b is BUF:
                v = mk("fn", "raw", src[2], n)
                ev = it.emit(st, "rawread", e, pos=src[2], n=n, val=v, T=T, size=n)
                return v
            s = split(parts_of(b), src[2])
            if s and s[1] and s[1][0][0] == "bytes" and sub(part_size(s[1][0]), n) is ZERO:
                return s[1][0][2]
        return mk("s", "badload", it.fresh())

    def memcpy(self, it, st, fr, e, q, oloc, args):
        d, s, n = (it.argv(st, a) for a in args)
        dr, sr = self.region(st, d, e["a"][0]), self.region(st, s, e["a"][1])
        for role, r, ex in (("dst", dr, e["a"][0]), ("src", sr, e["a"][1])):
            if r[0] == "obj":
                it.emit(st, "objbytes", e, role=role, T=pointee(ex), n=n, val=it.read(st, r[1]), loc=r[1],
                        base=it.read(st, r[1].args[0]) if r[1].op in ("Lf", "Li") else None, dt=self.it.datatype.get(r[1], ""))
            elif r[0] == "?":
                it.emit(st, "badptr", e, role=role, ptr=r[1])
            elif role == "dst":
                it.emit(st, "bufwrite", e, off=r[2], n=n, base=it.read(st, r[1]))
        v = self.load(st, sr, n, pointee(e["a"][0]), e)
        if dr[0] == "obj":
            it.write(st, dr[1], v)
        elif dr[0] == "buf":
            b = it.read(st, dr[1])
            s1 = split(parts_of(b), dr[2])
            s2 = split(parts_of(b), add(dr[2], n)) if s1 is not None else None
            if s1 is None or s2 is None:
                it.write(st, dr[1], mk("s", "badstore", it.fresh()))
            else:
                it.write(st, dr[1], seq(s1[0] + [("bytes", n, v)] + s2[1]))
        return d

    def copy(self, it, st, fr, e, q, oloc, args):
        vs = [it.argv(st, a) for a in args]
        if len(vs) == 3:
            a, b, o = vs
            if a.op == "it" and b.op == "it" and it.read(st, a.args[0]) is BUF:
                n = sub(b.args[1], a.args[1])
                v = self.load(st, ("buf", a.args[0], a.args[1]), n, "unsigned char", e)
                dr = self.region(st, o, e["a"][2])
                if dr[0] == "obj":
                    it.emit(st, "objbytes", e, role="dst", T=pointee(e["a"][2]), n=n, val=it.read(st, dr[1]), loc=dr[1])
                    it.write(st, dr[1], v)
                    return o
                if dr[0] == "buf":
                    bb = it.read(st, dr[1])
                    s1, s2 = split(parts_of(bb), dr[2]), split(parts_of(bb), add(dr[2], n))
                    it.write(st, dr[1], seq(s1[0] + [("bytes", n, v)] + s2[1]) if s1 and s2 else mk("s", "badstore", it.fresh()))
                    return o
        return NotImplemented

    def bswap(self, it, st, fr, e, q, oloc, args):
        w = {"htons": "16", "ntohs": "16", "htonl": "32", "ntohl": "32"}.get(q) or q[-2:]
        v = it.argv(st, args[0])
        return bsw(w, v)

    def ident(self, it, st, fr, e, q, oloc, args):
        return it.argv(st, args[0])

    # --- caller supplied codecs
    def fcall(self, it, st, fr, e, f, args):
        vs = [it.argv(st, a) for a in args]
        if f.op != "s":
            return NotImplemented
        for k, (a, v) in enumerate(zip(args, vs)):
            if v is BUF and len(args) == 2:
                pos = vs[1 - k]
                val, sz = mk("fn", "dec", f, pos), mk("fn", "decsize", f, pos)
                it.emit(st, "rawread", e, pos=pos, n=sz, val=val, T=None, size=sz, f=f)
                return rec({"first": val, "second": sz})
        if len(args) == 2 and args[1][0] == "l":
            b = vs[1]
            it.write(st, args[1][1], seq(parts_of(b) + [("enc", f, vs[0])]))
            return mk("fn", "encsize", f, vs[0])
        return NotImplemented


def bsw(w, v):
    if v.op == "fn" and v.args[0] == "bswap" and v.args[1] == w:
        return v.args[2]
    return mk("fn", "bswap", w, v)


# ---------------------------------------------------------------- running writers and readers
def run_writer(prog, fn, this=None):
    """returns dict(parts, ret, fs, lay)"""
    lay = Layout(prog)
    args = []
    fs = []
    st = I.State()
    for i, p in enumerate(fn["params"]):
        if "std::vector<unsigned char" in p["t"] and not p["t"].startswith("const"):
            r = mk("var", "arg", i)
            st.store[r] = BUF0
            args.append(("l", L_root(r)))
            bl = L_root(r)
        elif "std::function" in p["t"]:
            f = mk("s", "codec", len(fs))
            fs.append(f)
            args.append(f)
        else:
            r = mk("var", "obj")
            st.store[r] = X
            args.append(("l", L_root(r)))
    th = None
    if this:
        r = mk("var", "obj")
        st.store[r] = X
        th = L_root(r)
    ret = lay.it.run(fn, this=th, args=args, st=st)
    out = lay.it.read(lay.it.state, bl)
    return dict(out=out, ret=ret, fs=fs, lay=lay, fn=fn, events=lay.it.events)


def run_reader(prog, fn, this=None):
    lay = Layout(prog)
    args = []
    fs = []
    st = I.State()
    for i, p in enumerate(fn["params"]):
        if "std::function" in p["t"]:
            f = mk("s", "codec", len(fs))
            fs.append(f)
            args.append(f)
        elif "std::vector<unsigned char" in p["t"]:
            args.append(BUF)
        else:
            args.append(CUR)
    lay.it.uadds = True
    st0 = le(ZERO, CUR, True)
    th = None
    if this:
        th = L_root(mk("var", "obj"))
        st.store[mk("var", "obj")] = mk("new", "obj")
    ret = lay.it.run(fn, this=th, args=args, facts=[st0], st=st)
    if this:
        obj, sz = lay.it.read(lay.it.state, th), ret
    else:
        obj, sz = fld(ret, "first"), fld(ret, "second")
    return dict(obj=obj, size=sz, fs=fs, lay=lay, fn=fn, events=lay.it.events)


def cnt(t):
    """count(loop(0, hi, 1)) -> hi  for non-negative bounds"""
    m = {}
    for x in subterms(t):
        if x.op == "fn" and x.args[0] == "count" and x.args[1].op == "loop" and x.args[1].args[0] is ZERO and x.args[1].args[2] is ONE:
            m[x] = x.args[1].args[1]
        if x.op == "fn" and x.args[0] == "max" and len(x.args) == 3 and ZERO in x.args:
            o = x.args[1] if x.args[2] is ZERO else x.args[2]
            if o.op == "fn" and o.args[0] in ("size", "raw"):
                m[x] = o
    return subst(t, m) if m else t


def merged(parts):
    return list(parts)


def nonneg(*ts):
    """the monomials over sizes and dimensions in ts are not negative"""
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == "fn" and x.args[0] in ("rows", "cols", "size"):
                out.append(le(ZERO, x, True))
            if x.op == "poly":
                for m, c in x.args:
                    if m and all(a.op == "fn" and a.args[0] in ("rows", "cols", "size") for a, e in m):
                        q = ONE
                        for a, e in m:
                            q = mul(q, power(a, e))
                        out.append(le(ZERO, q, True))
    return [f for f in dict.fromkeys(out) if not isc(f)]


class Mismatch(Exception):
    pass


def match(w, r, rel=str):
    """Align the reader's reads with the writer's parts.  Raises Mismatch(text) or returns the substitution."""
    parts = parts_of(w["out"])
    if not parts or parts[0] != ("all", BUF0):
        raise Mismatch("the serializer does not only append: buffer becomes %s" % show(w["out"])[:300])
    reads = [e for e in r["events"] if e.kind == "rawread"]
    info = r["lay"].it.loopinfo
    S = {}
    used = set()

    def sb(t):
        return cnt(subst(t, S))

    def level(e, pre):
        return e.loops[:len(pre)] == pre

    def desc(p):
        return show(p)[:200]

    def go(parts, pos, pre):
        for p in parts:
            if p[0] in ("bytes", "enc"):
                n = part_size(p)
                c = [e for e in reads if id(e) not in used and e.loops == pre and sub(sb(e.pos), pos) is ZERO]
                if not c:
                    nxt = [e for e in reads if id(e) not in used]
                    raise Mismatch("nothing reads the %s that was written at offset %s; next unmatched read is %s" % (
                        desc(p), show(pos), ["line %s: %s bytes at %s" % (e.ln, show(sb(e.n)), show(sb(e.pos))) for e in nxt[:1]]))
                e = c[0]
                if p[0] == "enc":
                    if e.d.get("f") is not p[1]:
                        raise Mismatch("written by codec %s, read by %s (line %s)" % (show(p[1]), show(e.d.get("f") or NULL), e.ln))
                    S[e.val] = p[2]
                    S[e.n] = n
                else:
                    if e.d.get("f") is not None:
                        raise Mismatch("raw bytes %s read through a codec (line %s)" % (desc(p), e.ln))
                    if sub(sb(e.n), cnt(n)) is not ZERO:
                        raise Mismatch("%s written as %s bytes, read as %s bytes (line %s)" % (show(p[2])[:80], show(n), show(sb(e.n)), e.ln))
                    S[e.val] = p[2]
                used.add(id(e))
                # a substituted value may appear in later positions
                pos = add(pos, cnt(n))
            elif p[0] == "loop":
                d = p[1]
                cand = []
                for e in reads:
                    if id(e) not in used and len(e.loops) > len(pre) and e.loops[:len(pre)] == pre:
                        x = e.loops[len(pre)]
                        if x not in cand:
                            cand.append(x)
                if not cand:
                    raise Mismatch("a repeated group %s is written but never read" % desc(p))
                d2 = cand[0]
                if d2.args[0] == "w" or d.args[0] == "w":
                    raise Mismatch("group loop without a recognisable bound (reader %s, writer %s)" % (show(d2)[:120], show(d)[:120]))
                lo2, hi2, st2 = sb(d2.args[0]), sb(d2.args[1]), d2.args[2]
                lo, hi, stp = d.args[0], d.args[1], d.args[2]
                if st2 is not stp or sub(sub(hi2, lo2), sub(hi, lo)) is not ZERO:
                    raise Mismatch("group written %s times, read %s times" % (show(sub(hi, lo)), show(sub(hi2, lo2))))
                iv2, iv = info[d2]["iv"], w["lay"].it.loopinfo[d]["iv"]
                S[iv2] = add(iv, sub(lo2, lo))
                S[d2] = d
                total = ZERO
                for q in p[2]:
                    total = add(total, part_size(q))
                first = [e for e in reads if id(e) not in used and e.loops[:len(pre) + 1] == pre + (d2,)]
                f0 = first[0].pos
                # which loop carried value is the cursor?
                cur = None
                for h, (p0, ev, k) in info[d2]["carried"].items():
                    if h.op == "s" and h in subterms(f0) and h is not iv2:
                        cur = (h, p0, ev, k)
                if cur:
                    h, p0, ev, k = cur
                    P = mk("s", "pos", d)
                    S[h] = P
                    if sub(sb(p0), pos) is not ZERO:
                        raise Mismatch("group starts at %s but is read from %s" % (show(pos), show(sb(p0))))
                    go(list(p[2]), P, pre + (d2,))
                    if ev is None or sub(sb(ev), add(P, cnt(total))) is not ZERO:
                        raise Mismatch("cursor advances by %s per group, %s bytes are written" % (show(sub(sb(ev), P)) if ev is not None else "?", show(cnt(total))))
                    fold = mk("fold", d2, p0, h, ev)
                    tot = cnt(part_size(p))
                    S[fold] = add(pos, tot)
                else:
                    base = sb(f0)
                    at0 = cnt(subst(base, {iv: lo}))
                    step = sub(subst(base, {iv: add(iv, ONE)}), base)
                    if sub(at0, pos) is not ZERO or sub(step, cnt(total)) is not ZERO:
                        raise Mismatch("group at %s with stride %s is read from %s with stride %s" % (show(pos), show(cnt(total)), show(at0), show(step)))
                    go(list(p[2]), base, pre + (d2,))
                pos = add(pos, cnt(part_size(p)))
            elif p[0] == "rep" and part_size(p) is ZERO:
                continue
            else:
                raise Mismatch("unrecognised part %s is written" % desc(p))
        return pos

    end = go(parts[1:], CUR, ())
    left = [e for e in reads if id(e) not in used]
    if left:
        raise Mismatch("bytes are read that were never written: line %s, %s bytes at %s" % (left[0].ln, show(sb(left[0].n)), show(sb(left[0].pos))))
    return S, sub(end, CUR), sb


def idloop(t):
    """normalise 'copy of every element' and 'map rebuilt from its entries' to the container itself"""
    if t.op == "seq" and len(t.args) == 1 and t.args[0][0] == "loop":
        d, body = t.args[0][1], t.args[0][2]
        if len(body) == 1 and body[0][0] == "item":
            v = body[0][1]
            if v.op == "sel" and v.args[1].op == "s" and v.args[1].args[0] == "iv" and d.args[0] is ZERO and d.args[1] is size(v.args[0]):
                return v.args[0]
    return None


def same(prog, a, x, t, path="value"):
    """is value a the original x (static type t)?  returns None or a description of the difference"""
    t = (t or "").replace("const ", "").replace("&", "").strip()
    if a is x:
        return None
    if a.op == "b" and a.args[0] is x or x.op == "b" and x.args[0] is a or tobool(a) is tobool(x):
        return None
    if a.op == "seq" and len(a.args) == 1 and a.args[0][0] == "all":
        return same(prog, a.args[0][1], x, t, path)
    if a.op == "fn" and a.args[0] == "narrow" and a.args[2] is x:
        return None
    if a.op == "ite":
        return same(prog, a.args[1], x, t, path) or same(prog, a.args[2], x, t, path)
    if a.op == "upd" and any(k == "<data>" for k, _ in a.args[1:]):
        r, c = eigen.dims(a, t)
        rx, cx = eigen.dims(x, t)
        if sub(cnt(r), rx) is not ZERO or sub(cnt(c), cx) is not ZERO:
            return "%s has dimensions %s x %s instead of %s x %s" % (path, show(r), show(c), show(rx), show(cx))
        d = fld(a, "<data>")
        if d is not fld(x, "<data>"):
            return "%s data is %s" % (path, show(d)[:120])
        return None
    if a.op == "upd" and {k for k, _ in a.args[1:]} == {"<matrix>"}:
        return same(prog, fld(a, "<matrix>"), fld(x, "<matrix>"), "Eigen::Matrix<double, 4, 4", path)
    if a.op == "seq" and len(a.args) == 1 and a.args[0][0] == "loop" and len(a.args[0][2]) == 1 and a.args[0][2][0][0] == "item":
        d, v = a.args[0][1], a.args[0][2][0][1]
        iv = [s for s in subterms(v) if s.op == "s" and s.args[0] == "iv"]
        if d.args[0] is ZERO and d.args[1] is size(x):
            cand = [s for s in iv if sel(x, s) in subterms(v)] or iv[:1]
            if cand:
                et = elemtype(t)
                return same(prog, v, sel(x, cand[0]), et, path + "[i]")
        return "%s holds %s elements instead of %s" % (path, show(d)[:100], show(size(x)))
    if a.op == "fold":
        d, p0, h, ev = a.args
        if p0 is EMPTY and d.args[0] is ZERO and d.args[1] is size(x):
            e = ev
            if e.op == "ite" and e.args[1] is h:
                e = e.args[2]
            elif e.op == "ite" and e.args[2] is h:
                e = e.args[1]
            if e.op == "astore" and e.args[0] is h:
                k, v = e.args[1], e.args[2]
                if k.op == "fld" and k.args[1] == "first" and v.op == "fld" and v.args[1] == "second" and k.args[0] is v.args[0] and \
                        k.args[0].op == "sel" and k.args[0].args[0] is x:
                    return None
                return "%s entries are rebuilt from %s -> %s" % (path, show(k)[:80], show(v)[:80])
    r = prog.records.get(t)
    if r is not None and a.op in ("upd", "rec", "new", "sel", "fld"):
        fs = [f for f in r["fields"]]
        if a.op in ("upd", "rec"):
            for f in fs:
                m = same(prog, fld(a, f["n"]), fld(x, f["n"]), f["t"], path + "." + f["n"])
                if m:
                    return m
            return None
    if a.op == "rec" and {k for k, _ in a.args} == {"first", "second"}:
        for k in ("first", "second"):
            m = same(prog, fld(a, k), fld(x, k), "", path + "." + k)
            if m:
                return m
        return None
    return "%s is rebuilt as %s instead of %s" % (path, show(a)[:160], show(x)[:100])


def targs(t):
    """template arguments of a type string"""
    if "<" not in t:
        return []
    s = t[t.index("<") + 1:t.rindex(">")]
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def elemtype(t):
    a = targs(t)
    return a[0] if t.startswith("std::vector<") and a else ""
