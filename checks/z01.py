from engine import interp as I
from engine.driver import rel
from engine.models import itval
from engine.terms import *

ASSUMPTIONS = ["zlib honours its documented z_stream protocol", "a codec call produces at most avail_out bytes and lowers avail_out by what it produced"]
IN = mk("s", "in")
GS = mk("var", "ghost", "zstate")
GE = mk("var", "ghost", "zopen")
CALLS = {"inflate", "deflate"}
INITS = {"inflateInit_", "deflateInit_", "inflateInit2_", "deflateInit2_", "inflateInit", "deflateInit"}
ENDS = {"inflateEnd", "deflateEnd"}


class Codec:
    """typestate of the output window of a z_stream: t(op, previous, ...) terms, resolved after the run"""

    def __init__(self, prog, fn, vec=None):
        self.prog, self.fn, self.vec = prog, fn, vec
        hooks = {"store": self.onstore, "std::vector::insert": self.insert}
        for n in CALLS:
            hooks[n] = self.call
        for n in INITS:
            hooks[n] = self.init
        for n in ENDS:
            hooks[n] = self.end
        self.it = I.Interp(prog, hooks=hooks)
        st = I.State()
        r = mk("var", "in")
        st.store[r] = IN
        st.store[GS] = mk("lit", "start")
        st.store[GE] = ZERO
        self.bounds = []
        self.base = None
        self.vecs = []
        self.strms = set()
        self.N = set()
        self.status = {}
        self.it.run(fn, args=[("l", I.L_root(r))], st=st)

    def strm(self, it, st, a):
        p = it.argv(st, a)
        return p.args[0] if p.op == "addr" else None

    def onstore(self, it, st, node, loc, v):
        if loc.op == "Lf" and loc.args[1] in ("avail_out", "next_out"):
            S = it.rd_root(st, GS)
            self.strms.add(loc.args[0])
            cur = it.read(st, I.L_f(loc.args[0], "avail_out"))
            if loc.args[1] == "avail_out":
                if isc(v):
                    self.N.add(v)
                st.store[GS] = mk("t", "a", S, cur)
            else:
                self.base = v
                st.store[GS] = mk("t", "n", S, cur)
            it.emit(st, "zreset", node, S=S, cur=cur, field=loc.args[1], val=v)
        if loc.op == "Lf" and loc.args[1] in ("avail_in", "next_in"):
            it.emit(st, "zinput", node, field=loc.args[1], val=v)

    def init(self, it, st, fr, e, q, oloc, args):
        st.store[GE] = ONE
        return mk("s", "initstatus", it.fresh())

    def end(self, it, st, fr, e, q, oloc, args):
        it.emit(st, "zend", e, E=it.rd_root(st, GE), S=it.rd_root(st, GS))
        st.store[GE] = ZERO
        return ZERO

    def call(self, it, st, fr, e, q, oloc, args):
        l = self.strm(it, st, args[0])
        S = it.rd_root(st, GS)
        k = (e["ln"], len(it.stack), q)
        a = mk("s", "avail", e["ln"], it.fresh() if it.muted == 0 else 0)
        s = mk("s", "status", e["ln"], q, it.argv(st, args[1]))
        it.emit(st, "zcall", e, S=S, cur=self.cur(it, st.store), q=q, open=it.rd_root(st, GE))
        st.store[GS] = mk("t", "c", S, a)
        if l is not None:
            tot = None
            if self.vec is not None:
                for r in st.store:
                    if r.op == "var" and r.args[0] == "l" and r.args[2:] == self.vec:
                        tot = size(st.store[r])
            n = next(iter(self.N)) if len(self.N) == 1 else mk("s", "N")
            it.write(st, I.L_f(l, "avail_out"), a)
            it.write(st, I.L_f(l, "avail_in"), mk("s", "inleft", e["ln"]))
            it.write(st, I.L_f(l, "next_in"), mk("s", "inpos", e["ln"]))
            it.write(st, I.L_f(l, "next_out"), mk("s", "outpos", e["ln"]))
            it.write(st, I.L_f(l, "total_out"), add(tot, sub(n, a)) if tot is not None else mk("s", "total", e["ln"]))
            self.bounds += [le(ZERO, a, True), le(a, n, True)]
            it.assume(st, le(ZERO, a, True))
            it.assume(st, le(a, n, True))
        return s

    def cur(self, it, store):
        if len(self.strms) != 1:
            return None
        s2 = I.State(store, [])
        return it.read(s2, I.L_f(next(iter(self.strms)), "avail_out"))

    def insert(self, it, st, fr, e, q, oloc, args):
        vs = [it.argv(st, a) for a in args]
        if len(vs) != 3 or vs[1].op == "it" and it.read(st, vs[1].args[0]) is IN:
            return NotImplemented
        n = dist(vs[1], vs[2])
        if n is None:
            return NotImplemented
        if self.base is None or dist(self.base, vs[1]) is None:
            return NotImplemented
        v = it.read(st, oloc)
        r = I.root_of(oloc)
        self.vecs.append((r.args[2:], r))
        S = it.rd_root(st, GS)
        end = vs[0].op == "it" and vs[0].args[0] is oloc and vs[0].args[1] is size(v)
        it.emit(st, "zflush", e, S=S, cur=self.cur(it, st.store), n=n, off=dist(self.base, vs[1]), atend=end)
        st.store[GS] = mk("t", "f", S, ZERO)
        it.write(st, oloc, seq((list(v.args) if v.op == "seq" else [("all", v)]) + [("rep", n, mk("s", "produced", e["ln"]))]))
        return itval(oloc, size(v))


def dist(a, b):
    def norm(x):
        if x.op == "addr" and x.args[0].op == "Li":
            return x.args[0].args[0], x.args[0].args[1]
        if x.op == "addr":
            return x.args[0], ZERO
        if x.op == "it":
            return x.args[0], x.args[1]
        return None, x
    (ra, oa), (rb, ob) = norm(a), norm(b)
    if ra is not rb:
        return None
    d = sub(ob, oa)
    if ra is None and any(x.op == "s" and x.args[0] in ("uninit", "init") or x.op == "uninit" for x in subterms(d)):
        return None
    return d


class Resolve:
    """values of the typestate term: (phase, next_out reset, avail_out reset) with the facts that select them"""

    def __init__(self, C):
        self.C = C
        self.N = next(iter(C.N)) if len(C.N) == 1 else None
        self.H = {}
        for d, i in C.it.loopinfo.items():
            av = None
            for h, (p0, ev, k) in i.get("carried", {}).items():
                if any(I.root_of(l) is k[0] for l in C.strms):
                    if k[1] and k[1][-1] == "avail_out":
                        av = (p0, ev)
                    elif not k[1] and ev is not None:
                        av = (fld(p0, "avail_out"), fld(ev, "avail_out"))
            for h, (p0, ev, k) in i.get("carried", {}).items():
                if k[0] is GS or k[0] is GE:
                    self.H.setdefault(h, [set(), []])[1].append(((p0, av and av[0]), (ev, av and av[1])))
        for _ in range(12):
            ch = False
            for h, (cur, src) in self.H.items():
                for p0, ev in src:
                    for x, av in (p0, ev):
                        if x is not None:
                            n = {v for v, _ in self.clean(self.leaves(x, []), av)}
                            if not n <= cur:
                                cur |= n
                                ch = True
            if not ch:
                break

    def eqv(self, a, b, facts):
        fs = list(facts) + self.C.bounds
        a, b = self.simp(a, facts), self.simp(b, facts)
        d = sub(a, b)
        return d is ZERO or entails(fs, le(d, ZERO, True)) and entails(fs, le(neg(d), ZERO, True))

    def impossible(self, fs):
        """two equalities or bounds that exclude each other"""
        return any(entails([g for g in fs if g is not f], lnot(f), 3) for f in fs if f.op in ("lt", "le", "lei", "eq"))

    def simp(self, t, facts):
        fs = set(facts)
        while True:
            m = {}
            for x in subterms(t):
                if x.op == "ite":
                    cs = set(conj(x.args[0]))
                    if cs <= fs:
                        m[x] = x.args[1]
                    elif set(conj(lnot(x.args[0]))) <= fs or any(lnot(c) in fs for c in cs):
                        m[x] = x.args[2]
            if not m:
                return t
            t = subst(t, m)

    def leaves(self, t, facts):
        facts = list(facts)
        if isc(t):
            return [(int(t.args[0]), facts)]
        if t.op == "lit":
            return [(("clean", False, False), facts)]
        if t.op == "ite":
            out = []
            for c, x in ((t.args[0], t.args[1]), (lnot(t.args[0]), t.args[2])):
                c = self.simp(c, facts)
                if c is FALSE or any(lnot(y) in facts for y in conj(c)):
                    continue
                out += self.leaves(x, facts + list(conj(c)))
            return out
        if t.op == "fold" and t.args[2] in self.H:
            return [(v, facts) for v in self.H[t.args[2]][0]]
        if t.op == "fold":
            return self.leaves(t.args[1], facts) + (self.leaves(t.args[3], facts) if t.args[3] is not None else [])
        if t in self.H:
            return [(v, facts) for v in self.H[t][0]]
        if t.op == "t":
            out = []
            for (ph, n, a), fs in self.leaves(t.args[1], facts):
                k, cur = t.args[0], t.args[2]
                if k != "c" and ph == "pend" and not a and self.N is not None and self.eqv(cur, self.N, fs):
                    ph = "clean"
                out.append(({"n": (ph, True, a), "a": (ph, n, True), "c": ("pend", False, False), "f": ("flushed", False, False)}[k], fs))
            return out
        return [(("unknown", False, False), facts)]

    def at(self, e, t, cur):
        """like leaves at an event, with a window that provably holds nothing counted as clean"""
        return self.clean(self.leaves(t, e.facts), cur)

    def clean(self, lv, cur):
        out = []
        for v, fs in lv:
            if isinstance(v, tuple) and v[0] == "pend" and not v[2] and self.N is not None and cur is not None and self.eqv(cur, self.N, fs):
                v = ("clean",) + v[1:]
            out.append((v, fs))
        return out


def run(ctx):
    ctx.rule("Typestate of the codec's output window (reset / pending / copied out) over all paths of each compression function: a reset needs nothing pending, "
             "a codec call needs a freshly reset or still pending window, every copy-out appends exactly window minus avail_out bytes at the end of the result, "
             "a normal return needs nothing pending and a tested end-of-stream status, and codec state is released before leaving. File helpers: a normal "
             "return is dominated by a test of the stream's fail state after the last read or write.")
    prog = ctx.program("zlib")
    for n in ("DecompressBytes", "CompressBytes"):
        f = ctx.need(prog.fn("ZlibHelpers::" + n), n)[0]
        codec(ctx, prog, f, n)
    load(ctx, prog)
    write(ctx, prog)
    ctx.minimum(30)


def at(e):
    return "%s:%s" % (rel(e.file), e.ln)


def codec(ctx, prog, f, name):
    ctx.analysed(f)
    w = "%s:%s" % (rel(f["file"]), f["ln"])
    C = Codec(prog, f)
    names = {v for v, _ in C.vecs}
    if len(names) == 1:
        C = Codec(prog, f, next(iter(names)))
    ctx.need(any(e.kind == "zcall" for e in C.it.events), name + " codec calls")
    R = Resolve(C)
    N = next(iter(C.N)) if len(C.N) == 1 else None
    cnt = {}

    def ob(key, ok, where, msg=""):
        cnt[key] = cnt.get(key, 0) + 1
        ctx.ob("%s: %s" % (name, key) + (" #%d" % cnt[key] if cnt[key] > 1 else ""), ok, where, msg)

    ob("one output window size", N is not None, w, "avail_out is set to %s" % [show(x) for x in C.N])
    first = None
    zin = {"avail_in": [], "next_in": []}
    for i, e in enumerate(C.it.events):
        if e.kind == "zcall":
            first = i if first is None else first
            bad = [v for v, _ in R.at(e, e.S, e.cur) if not ((v[1] and v[2]) or (v[0] in ("pend", "clean") and not v[1] and not v[2]))]
            ob("%s is called with a usable output window" % e.q, not bad, at(e), "the window may be %s" % desc(bad))
            o = {v for v, _ in R.leaves(e.open, e.facts)}
            ob("%s is called on an initialised stream" % e.q, o == {1}, at(e), "stream may be released or uninitialised")
        elif e.kind == "zreset":
            bad = [v for v, _ in R.at(e, e.S, e.cur) if v[0] == "pend"]
            ob("%s is reset only when nothing is pending" % e.field, not bad, at(e), "produced bytes that were not copied out are overwritten")
            if e.field == "avail_out":
                cap = winsize(prog, C, f)
                ob("window size fits its buffer", isc(e.val) and (cap is None or entails([], le(e.val, cap, True))), at(e), "window of %s bytes in a buffer of %s" % (show(e.val), show(cap) if cap else "?"))
        elif e.kind == "zflush":
            ok = e.atend and e.off is ZERO
            why = "not appended at the end of the result" if not ok else ""
            for v, fs in R.at(e, e.S, e.cur):
                if v[1] and v[2] and N is not None and e.cur is not None:
                    fs = fs + [eq(e.cur, N)]
                    if entails(fs + C.bounds, le(ONE, ZERO, True)) or entails(fs + C.bounds, FALSE) or R.impossible(fs) or R.eqv(e.n, ZERO, fs):
                        continue
                if v[0] == "clean" and R.eqv(e.n, ZERO, fs):
                    continue
                if v[0] not in ("pend", "clean") or v[1] or v[2]:
                    ok, why = False, "the window may be %s" % desc([v])
                elif N is None or e.cur is None or not R.eqv(e.n, sub(N, e.cur), fs):
                    ok, why = False, "%s bytes are copied out, %s were produced" % (show(e.n)[:150], show(sub(N, e.cur))[:100] if N and e.cur else "?")
            ob("copy out takes exactly the produced bytes", ok, at(e), why)
        elif e.kind == "zinput":
            zin[e.field].append((i, e))
        elif e.kind == "zend":
            pass
    for fl, lst in zin.items():
        ok = bool(lst)
        why = "%s is never set" % fl
        for i, e in lst:
            if fl == "avail_in":
                v = e.val
                while v.op == "fn" and v.args[0] == "narrow":
                    v = v.args[2]
                if v is not size(IN):
                    ok, why = False, "avail_in is %s" % show(e.val)[:100]
                elif not (v is e.val or entails(list(e.facts), le(v, num(2 ** 32 - 1), True))):
                    ok, why = False, "the input length may not fit avail_in"
            else:
                p = e.val
                if not (p.op == "addr" and I.root_of(p.args[0]) is mk("var", "in") and (p.args[0].op == "Lr" or p.args[0].op == "Li" and p.args[0].args[1] is ZERO)):
                    ok, why = False, "next_in is %s" % show(p)[:100]
            if first is not None and i > first:
                ok, why = False, "%s is set after the codec started" % fl
        ob("the whole input is handed to the codec (%s)" % fl, ok, at(lst[0][1]) if lst else w, why)
    # leaving the function
    for st, v, kind, e in exits(C):
        S, E = st.get(GS), st.get(GE)
        o = {v for v, _ in R.leaves(E, e.facts)}
        if kind == "return":
            bad = [x for x, _ in R.at(e, S, C.cur(C.it, st)) if x[0] not in ("flushed", "clean")]
            ob("nothing is pending when it returns", not bad, at(e), "produced bytes are dropped: the window may be %s" % desc(bad))
            ob("it returns the collected output", v is not None and any(x.op == "s" and x.args[0] == "produced" for x in subterms(v)), at(e), "the returned value is not the vector the output went to")
            ob("it returns only after the end of the stream was reported", ended(C, e), at(e), "no dominating test that the last codec call reported the end of the stream")
            ob("the stream is released when it returns", o == {0}, at(e))
        elif 1 in o and not initfail(e):
            ob("the stream is released when it reports a failure", False, at(e))
        else:
            ob("the stream is released when it reports a failure", True, at(e))


def initfail(e):
    return any(f.op == "not" and any(x.op == "s" and x.args[0] == "initstatus" for x in subterms(f)) for f in e.facts)


def srcs(C, t, d=0):
    if d > 12:
        return {t}
    if t.op == "fold":
        return srcs(C, t.args[1], d + 1) | srcs(C, t.args[3], d + 1)
    if t.op == "ite":
        return srcs(C, t.args[1], d + 1) | srcs(C, t.args[2], d + 1)
    if t.op == "s" and t.args[0] == "H":
        for i in C.it.loopinfo.values():
            for h, (p0, ev, k) in i.get("carried", {}).items():
                if h is t:
                    return srcs(C, p0, d + 1) | (srcs(C, ev, d + 1) if ev is not None else set())
                # a whole-record havoc: fields of it
    if t.op == "fld" and t.args[0].op in ("fold", "ite"):
        b = t.args[0]
        if b.op == "fold":
            return srcs(C, fld(b.args[1], t.args[1]), d + 1) | srcs(C, fld(b.args[3], t.args[1]), d + 1)
    if t.op == "fld" and t.args[0].op == "s" and t.args[0].args[0] == "H":
        for i in C.it.loopinfo.values():
            for h, (p0, ev, k) in i.get("carried", {}).items():
                if h is t.args[0]:
                    return srcs(C, fld(p0, t.args[1]), d + 1) | (srcs(C, fld(ev, t.args[1]), d + 1) if ev is not None and ev is not h else set())
    return {t}


def winsize(prog, C, f):
    """size of the local array the window starts at, from its declared type"""
    import re
    for e in C.it.events:
        if e.kind == "decl" and "[" in e.t:
            m = re.search(r"\[(\d+)\]", e.t)
            if m and C.base is not None and any(x.op == "var" and x is e.root for x in subterms(C.base)):
                return num(int(m.group(1)))
    return None


def desc(vs):
    out = []
    for v in vs:
        ph = v[0]
        out.append({"pend": "holding produced bytes", "flushed": "already copied out and not reset", "clean": "not set up", "unknown": "in an unknown state"}.get(ph, str(ph)) +
                   (" with only one of next_out and avail_out reset" if (v[1] ^ v[2]) else ""))
    return ", ".join(sorted(set(out)))


def exits(C):
    """(ghost store, value, kind, event) for every normal return of the analysed function and every throw"""
    for e in C.it.events:
        if e.kind == "return" and e.depth == 1:
            yield e.store, e.val, "return", e
        elif e.kind == "throw":
            yield e.store, None, "throw", e


def ended(C, e):
    for f in e.facts:
        if f.op == "eq":
            x = add(f.args[0], ONE)
            y = sub(ONE, f.args[0])
            for c in (x, y):
                ss = srcs(C, c)
                st = [s for s in ss if s.op == "s" and s.args[0] == "status"]
                other = [s for s in ss if s not in st and not (isc(s) and s.args[0] != 1) and not (s.op == "s" and s.args[0] in ("initstatus", "uninit")) and s.op not in ("uninit", "undef")
                         and not (s.op == "s" and s.args[0] == "H")]
                if st and not other and all(s.args[2] == "inflate" or s.args[3] is num(4) for s in st):
                    return True
    return False


# ---------------------------------------------------------------- files
def load(ctx, prog):
    f = ctx.need(prog.fn("ZlibHelpers::LoadFromFileAndDecompress"), "LoadFromFileAndDecompress")[0]
    ctx.analysed(f)
    it = I.Interp(prog, opaque={"ZlibHelpers::DecompressBytes"})
    it.run(f, args=[mk("s", "path")])
    n = 0
    for e in it.events:
        if e.kind == "call" and e.q == "ZlibHelpers::DecompressBytes":
            n += 1
            ctx.ob("LoadFromFileAndDecompress: file contents are used only after a successful read" + ("" if n == 1 else " #%d" % n), streamok(e.facts, ("read",)), at(e),
                   "no dominating test of the input stream after reading")
            v = e.args[0]
            rd = [x for x in subterms(v) if x.op == "fn" and x.args[0].endswith("::read")]
            ok = False
            why = "the decompressed bytes are not what was read"
            for x in rd:
                m = x.args[-1]
                ok = any(y.op == "fn" and y.args[0].endswith("tellg") for y in subterms(m))
                why = "reads %s bytes" % show(m)[:120]
            ctx.ob("LoadFromFileAndDecompress: the whole file is read" + ("" if n == 1 else " #%d" % n), ok, at(e), why)
            op = [x for x in subterms(v) if x.op == "fn" and x.args[0].endswith("::tellg")]
    ctx.need(n, "decompression of file contents")
    for e in it.events:
        if e.kind == "return" and e.depth == 1 and e.val is not None and e.val.op == "seq":
            ok = all(p[0] == "loop" and [q[0] for q in p[2]] == ["all"] and p[2][0][1].op == "fn" and "LoadFromFileAndDecompress" in p[2][0][1].args[0] for p in e.val.args) and len(e.val.args) == 1
            ctx.ob("LoadFromFileAndDecompress: slices are appended in order, each once", ok, at(e), "returns %s" % show(e.val)[:200])


def streamok(facts, ops):
    """a fact saying the stream did not fail, about a state after the last operation in ops"""
    for f in facts:
        for x in conj(f):
            neg_ = x.op == "not"
            b = x.args[0] if neg_ else x
            if b.op != "b":
                continue
            t = b.args[0]
            if t.op != "fn":
                continue
            nm = t.args[0].rsplit("::", 1)[-1]
            good = (neg_ and nm in ("fail", "operator!")) or (not neg_ and nm in ("good", "operator bool", "operator void *"))
            if good and any(y.op == "fn" and y.args[0].rsplit("::", 1)[-1] in ops for y in subterms(t)):
                return True
    return False


def write(ctx, prog):
    f = ctx.need(prog.fn("ZlibHelpers::CompressAndWriteToFile"), "CompressAndWriteToFile")[0]
    ctx.analysed(f)
    st = I.State()
    r = mk("var", "in")
    st.store[r] = IN
    it = I.Interp(prog, opaque={"ZlibHelpers::CompressBytes"})
    it.run(f, args=[("l", I.L_root(r)), mk("s", "path")], st=st)
    w = "%s:%s" % (rel(f["file"]), f["ln"])
    wr = [e for e in it.events if e.kind == "call" and e.q.endswith("ostream::write")]
    ctx.need(wr, "write of the compressed data")
    for e in wr:
        src, n = e.args[0], e.args[1]
        v = None
        if src.op == "addr":
            v = it.rd_root(it.state, I.root_of(src.args[0])) if False else None
        sz = [x for x in subterms(n) if x.op == "fn" and x.args[0] == "ZlibHelpers::CompressBytes"]
        ok = n.op == "fn" and n.args[0] == "size" and sz and n.args[1] is sz[0] and sz[0].args[1] is IN
        ctx.ob("CompressAndWriteToFile: all compressed bytes of the input are written", ok, at(e), "writes %s bytes" % show(n)[:150])
    last = [e for e in it.events if (e.kind == "fallthrough" or e.kind == "return") and e.depth == 1]
    ends = [e for e in last if any(("ostream" in str(x.args[0]) or "ofstream" in str(x.args[0]) or "basic_ios" in str(x.args[0])) for fct in e.facts for x in subterms(fct) if x.op == "fn")]
    ctx.ob("CompressAndWriteToFile: a failed write is reported", bool(ends) and all(streamok(e.facts, ("write", "close", "flush")) for e in ends),
           at(ends[0]) if ends else w, "on the normal return the stream's fail state after writing and closing has not been tested (bad() alone misses a failed close)")
    closes = [e for e in it.events if e.kind == "call" and e.q.endswith("::close")]
    ctx.ob("CompressAndWriteToFile: the stream is closed or flushed before the test", all(any(y.op == "fn" and y.args[0].rsplit("::", 1)[-1] in ("close", "flush") for fct in e.facts for y in subterms(fct)) for e in ends) and bool(ends),
           at(ends[0]) if ends else w, "buffered bytes may still fail to reach the file after the test")
    # slicing of oversized inputs
    rec_ = [e for e in it.events if e.kind == "call" and e.q == "ZlibHelpers::CompressAndWriteToFile"]
    for e in rec_:
        s = e.args[0]
        ok, why = False, "slice is %s" % show(s)[:200]
        p = s.args[0] if s.op == "seq" and len(s.args) == 1 and s.args[0][0] == "range" else None
        if p is not None and p[1] is IN and e.loops:
            d = e.loops[0]
            inf = it.loopinfo[d]
            iv = inf["iv"]
            if iv is not None:
                lo, hi = p[2], p[3]
                nxt = subst(lo, {iv: add(iv, d.args[2])})
                start = subst(lo, {iv: d.args[0]})
                h = [x for x in (hi,)][0]
                full = size(IN)
                ok = start is ZERO and (h is tmin(full, nxt) or h is tmin(nxt, full)) and ivstop(d, lo, iv, full)
                why = "slice [%s, %s), next starts at %s, loop bound %s" % (show(lo), show(hi), show(nxt), show(d.args[1]))
        ctx.ob("CompressAndWriteToFile: slices cover the input without gap or overlap", ok, at(e), why)


def ivstop(d, lo, iv, full):
    """the loop runs exactly while the slice start is inside the input"""
    nxt, last = subst(lo, {iv: d.args[1]}), subst(lo, {iv: sub(d.args[1], d.args[2])})
    fs = []
    for x in subterms(d.args[1]):
        if x.op == "fn" and x.args[0] == "idiv" and isc(x.args[2]):
            a, m = x.args[1], x.args[2]
            fs += [le(mul(x, m), a, True), le(a, add(mul(x, m), sub(m, ONE)), True)]
    if sub(nxt, full) is ZERO or sub(subst(lo, {iv: sub(d.args[1], ONE)}), sub(full, ONE)) is ZERO:
        return True
    return entails(fs, le(full, nxt, True)) and entails(fs, lt(last, full, True))
