"""Structured abstract interpreter over the IR that arcdump produces.

Flow-sensitive, joins at every merge (values become gated `ite` terms, facts are intersected), loops run to a
fixpoint over havocked locations and are then summarised; callees of the repository are inlined.  No path
enumeration and no solver: conditions are kept as facts in a linear-inequality/boolean fact set."""
import re
import struct
from fractions import Fraction
from .terms import *

INT_RE = re.compile(r"^(const )?(unsigned )?(char|short|int|long|long long|signed char|unsigned|bool|__int128|size_t)( int)?$")
MAPT = re.compile(r"^(const )?std::(unordered_|multi|unordered_multi)?(map|set)<")


def isint(t):
    t = t.replace("volatile ", "").strip()
    return bool(INT_RE.match(t)) or t.endswith("enum")


def isfloat(t):
    t = t.replace("const ", "").strip()
    return t in ("double", "float", "long double")


class Event:
    __slots__ = ("kind", "ln", "file", "fn", "facts", "loops", "d", "stack", "st")

    def __init__(self, kind, ln, file, fn, facts, loops, stack, d):
        self.kind, self.ln, self.file, self.fn, self.facts, self.loops, self.stack, self.d = kind, ln, file, fn, facts, loops, stack, d

    def __getattr__(self, k):
        try:
            return object.__getattribute__(self, "d")[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "<%s %s:%s %s>" % (self.kind, self.file.split("/")[-1], self.ln, {k: v for k, v in self.d.items() if k not in ("node",)})


def leaves(t):
    """alternatives of a value"""
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


class State:
    __slots__ = ("store", "facts", "dead")

    def __init__(self, store=None, facts=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else []
        self.dead = False

    def copy(self):
        s = State(dict(self.store), list(self.facts))
        s.dead = self.dead
        return s


def L_root(r):
    return mk("Lr", r)


def L_f(b, n):
    if b.op == "Lm" and n == "second":
        return mk("Li", b.args[0], b.args[1])
    return mk("Lf", b, n)


def L_i(b, i):
    return mk("Li", b, i)


def root_of(l):
    while l.op != "Lr":
        l = l.args[0]
    return l.args[0]


class Frame:
    def __init__(self, fn, uid, this=None, parent=None):
        self.fn = fn
        self.uid = uid
        self.env = {}
        self.this = this
        self.returns = []
        self.brk = []
        self.cont = []
        self.parent = parent


class Budget(Exception):
    pass


class Interp:
    def __init__(self, prog, opaque=(), hooks=None, maxdepth=14, budget=400000, inline=None):
        self.prog = prog
        self.opaque = set(opaque)
        self.hooks = hooks or {}
        self.uadds = False  # report unsigned additions
        self.maxdepth = maxdepth
        self.events = []
        self.muted = 0
        self.loops = []
        self.stack = []
        self.nuid = 0
        self.budget = budget
        self.inline_pred = inline
        self.globals_mode = {}
        self.want = None
        self.mapvals = set()
        self.loopinfo = {}
        self.derived = set()
        self.datatype = {}
        self.chars = False
        self.bits = False
        self.notes = []

    # ------------------------------------------------------------ store
    def initial(self, root):
        if root.op == "var" and root.args[0] == "g":
            g = self.prog.globals.get(root.args[1])
            if g is not None and g.get("const") and g.get("cv") is not None:
                return self.constval(g["cv"])
        return mk("s", "init", root)

    def constval(self, cv):
        k = cv["k"]
        if k == "int":
            return num(int(cv["v"]))
        if k == "flt":
            return numstr(cv["v"])
        if k == "arr":
            return mk("vec", *[self.constval(x) for x in cv["e"]])
        if k == "struct":
            es = [self.constval(x) for x in cv["e"]]
            if len(es) == 1:
                return es[0]
            return mk("vec", *es)
        return mk("s", "constunk")

    def rd_root(self, st, root):
        v = st.store.get(root)
        if v is None:
            v = self.initial(root)
        return v

    def read(self, st, loc):
        if loc.op == "Lr":
            return self.rd_root(st, loc.args[0])
        if loc.op == "Lf":
            return fld(self.read(st, loc.args[0]), loc.args[1])
        if loc.op == "Li":
            return sel(self.read(st, loc.args[0]), loc.args[1])
        if loc.op == "Lm":
            return rec({"first": loc.args[1], "second": sel(self.read(st, loc.args[0]), loc.args[1])})
        raise ValueError(loc)

    def write(self, st, loc, v):
        if loc.op == "Lr":
            st.store[loc.args[0]] = v
        elif loc.op == "Lm":
            self.write(st, loc.args[0], astore(self.read(st, loc.args[0]), loc.args[1], fld(v, "second")))
        elif loc.op == "Lf":
            self.write(st, loc.args[0], upd(self.read(st, loc.args[0]), loc.args[1], v))
        else:
            self.write(st, loc.args[0], astore(self.read(st, loc.args[0]), loc.args[1], v))

    def newroot(self, kind, name):
        self.nuid += 1
        return mk("var", kind, self.nuid, name)

    def temp(self, st, v, name="tmp"):
        r = self.newroot("t", name)
        st.store[r] = v
        return L_root(r)

    def deref(self, st, p):
        if p.op == "addr":
            return p.args[0]
        if p.op == "it":
            return L_i(p.args[0], p.args[1])
        if p.op == "mit":
            return mk("Lm", p.args[0], p.args[1])
        return L_root(mk("var", "deref", p))

    # ------------------------------------------------------------ facts
    def assume(self, st, c):
        c = tobool(c)
        for x in conj(c):
            if x is TRUE:
                continue
            if x is FALSE:
                st.dead = True
                return
            if x not in st.facts:
                st.facts.append(x)

    def simp(self, st, c):
        """decide c under the facts when that is immediate"""
        c = tobool(c)
        if isc(c):
            return c
        fs = st.facts
        if c in fs:
            return TRUE
        n = lnot(c)
        if n in fs:
            return FALSE
        if c.op in ("lt", "le", "lei", "eq") or (c.op == "not" and c.args[0].op == "eq"):
            rel = self.relevant(fs, c)
            if rel and entails(rel, c, 3):
                return TRUE
            if rel and entails(rel, n, 3):
                return FALSE
        elif c.op in ("and", "or"):
            xs = [self.simp(st, x) for x in c.args]
            return (land if c.op == "and" else lor)(*xs)
        return c

    def relevant(self, fs, c):
        at = {a for a in subterms(c) if a.op in ("s", "fn", "fld", "sel")}
        out = [f for f in fs if f.op in ("lt", "le", "lei", "eq") and len(poly_of(f.args[0])) <= 6 and not at.isdisjoint(subterms(f))]
        return out[-400:]

    def join(self, a, b):
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        fa, fb = a.facts, b.facts
        n = 0
        while n < len(fa) and n < len(fb) and fa[n] is fb[n]:
            n += 1
        sb = set(fb)
        sa = set(fa)
        common = [f for f in fa if f in sb]
        ea = [f for f in fa if f not in sb]
        eb = [f for f in fb if f not in sa]
        selc = None
        seb = set(eb)
        for f in ea:
            if lnot(f) in seb:
                selc = f
                break
        if selc is None:
            # facts that hold by construction (a finished loop, a passed assertion) do not choose the path
            ca = [f for f in ea if f not in self.derived] or ea
            cb = [f for f in eb if f not in self.derived] or eb
            if ca and not (ca is ea and ea and cb is not eb and all(f in self.derived for f in ea)):
                selc = land(*ca)
            elif cb:
                selc = lnot(land(*cb))
        if selc is None:
            if eb:
                selc = lnot(land(*eb))
            else:
                selc = mk("b", mk("s", "choice", self.fresh()))
        st = State({}, list(common))
        if ea and eb:
            d = lor(land(*ea), land(*eb))
            if d is not TRUE and d.op == "or":
                if d not in st.facts:
                    st.facts.append(d)
            elif d is not TRUE:
                self.assume(st, d)
        for r in set(a.store) | set(b.store):
            va, vb = a.store.get(r), b.store.get(r)
            if va is vb:
                st.store[r] = va
                continue
            if va is None or vb is None:
                if r.op == "var" and r.args[0] in ("t", "l"):
                    # local of one branch only
                    st.store[r] = va if va is not None else vb
                    continue
                va = va if va is not None else self.initial(r)
                vb = vb if vb is not None else self.initial(r)
            st.store[r] = self.merge(selc, va, vb)
        return st

    def merge(self, c, a, b, d=0):
        if a is b:
            return a
        if (a.op in ("seq",) or b.op == "seq") and d < 6:
            pa, pb = parts_of(a), parts_of(b)
            n = 0
            while n < len(pa) and n < len(pb) and pa[n] == pb[n]:
                n += 1
            if n > 0:
                m = 0
                ra, rb = pa[n:], pb[n:]
                while m < len(ra) and m < len(rb) and ra[-1 - m] == rb[-1 - m]:
                    m += 1
                tail = ra[len(ra) - m:] if m else []
                ra, rb = ra[:len(ra) - m], rb[:len(rb) - m]
                if len(ra) == len(rb) and all(x[0] == "item" and y[0] == "item" for x, y in zip(ra, rb)):
                    mid = [("item", self.merge(c, x[1], y[1], d + 1)) for x, y in zip(ra, rb)]
                else:
                    mid = [("alt", c, tuple(ra), tuple(rb))]
                return seq(pa[:n] + mid + tail)
        if (a.op == "upd" or b.op == "upd") and d < 8:
            ba = a.args[0] if a.op == "upd" else a
            bb = b.args[0] if b.op == "upd" else b
            if ba is bb:
                keys = {k for t in (a, b) if t.op == "upd" for k, _ in t.args[1:]}
                r = ba
                for k in sorted(keys):
                    r = upd(r, k, self.merge(c, fld(a, k), fld(b, k), d + 1))
                return r
        if a.op == "rec" and b.op == "rec" and [x[0] for x in a.args] == [x[0] for x in b.args]:
            return rec({k: self.merge(c, x, y, d + 1) for (k, x), (_, y) in zip(a.args, b.args)})
        if a.op == "it" and b.op == "it" and a.args[0] is b.args[0]:
            return mk("it", a.args[0], ite(c, a.args[1], b.args[1]))
        return ite(c, a, b)

    def fresh(self):
        self.nuid += 1
        return self.nuid

    # ------------------------------------------------------------ events
    def emit(self, st, kind, node_, **d):
        if self.muted or st.dead:
            return None
        if self.want is not None and kind not in self.want:
            return None
        fr = self.stack[-1] if self.stack else None
        if kind in ("return", "throw", "fallthrough", "noret"):
            d["store"] = dict(st.store)
        ln = node_.get("ln") if isinstance(node_, dict) else node_
        e = Event(kind, ln, fr.fn["file"] if fr else "?", fr.fn["q"] if fr else "?", list(st.facts), tuple(self.loops),
                  tuple((f.fn["q"]) for f in self.stack), d)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ running a function
    def call_fn(self, st, fn, this, args, node=None, parent=None):
        """args: list of ('v', Term) or ('l', loc).  Returns (Term or ('l', loc))"""
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        fr = Frame(fn, self.fresh(), this, parent)
        ps = fn["params"]
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            if a is None:
                if p.get("def") is not None:
                    self.stack.append(fr)
                    v = self.ev(st, fr, p["def"])
                    self.stack.pop()
                    a = ("v", v)
                else:
                    a = ("v", mk("s", "noarg", i))
            isref = p["t"].rstrip().endswith("&") or fn.get("py")
            if a[0] == "l" and isref:
                fr.env[p["id"]] = a[1]
            else:
                v = self.read(st, a[1]) if a[0] == "l" else a[1]
                r = mk("var", "l", fr.uid, p["id"], p["n"])
                st.store[r] = v
                fr.env[p["id"]] = L_root(r)
        caps = fn.get("_caps")
        self.stack.append(fr)
        try:
            if fn.get("kind") == "ctor":
                self.run_inits(st, fr, fn)
            body = fn.get("body")
            if body:
                out = self.stmt(st, fr, body)
                if out is not None and not out.dead:
                    self.emit(out, "fallthrough", body, depth=len(self.stack))
            else:
                out = st
        finally:
            self.stack.pop()
        rs = list(fr.returns)
        if out is not None and not out.dead:
            rs.append((out, None, tuple(self.loops), frozenset(), None))
        rs = [r for r in rs if not r[0].dead]
        if not rs:
            st.dead = True
            st.store = dict(st.store)
            return mk("s", "noret")
        if self.stack:
            rs = [self.lastround(*r) for r in rs]
        # the value is merged as a pseudo location
        rr = mk("var", "ret", fr.uid)
        acc = None
        isloc = fn["ret"].endswith("&") and all(v is not None and v[0] == "l" for _, v, *_ in rs)
        locs = {v[1] for _, v, *_ in rs} if isloc else set()
        groups = []
        for s, v, lp, _, ex in rs:
            if v is not None:
                s.store[rr] = self.read(s, v[1]) if v[0] == "l" else v[1]
            else:
                s.store[rr] = mk("void")
            if groups and ex is not None and groups[-1][0] is ex:
                groups[-1][1].append(s)
            else:
                groups.append((ex, [s]))
        # later returns share the conditions of having passed the earlier ones
        for ex, ss in reversed(groups):
            g = None
            for s in reversed(ss):
                g = s if g is None else self.join(s, g)
            acc = g if acc is None else self.join(g, acc)
        st.store = acc.store
        st.facts = acc.facts
        st.dead = acc.dead
        val = st.store.pop(rr)
        if isloc and len(locs) == 1:
            return ("l", next(iter(locs)))
        return val

    def lastround(self, s, v, lp, cov, ex):
        """a return from inside a loop of a called function: the round it happened in gets a name of its own"""
        m = {}
        for L in lp[len(self.loops):]:
            i = self.loopinfo.get(L)
            if i is not None and i.get("iv") is not None:
                m[i["iv"]] = mk("s", "last", L)
        if m:
            memo, seen = {}, set()
            for x in list(s.store.values()) + s.facts:
                subterms(x, seen)
            for x in seen:
                if x.op == "exists" and x.args[0] in lp:
                    m[x] = x
            for r, x in list(s.store.items()):
                s.store[r] = subst(x, m, memo)
            s.facts = [subst(f, m, memo) for f in s.facts]
            if v is not None:
                v = (v[0], subst(v[1], m, memo))
        return s, v, lp, cov, ex

    def run_inits(self, st, fr, fn):
        for i in fn.get("inits", []):
            if i.get("deleg") or i.get("base"):
                e = i["e"]
                if e["k"] == "ctor" and e.get("f") in self.prog.byid:
                    self.call_fn(st, self.prog.byid[e["f"]], fr.this, [self.ev_arg(st, fr, a) for a in e["a"]])
                else:
                    v = self.ev(st, fr, e)
                    if i.get("base"):
                        self.write(st, L_f(fr.this, "<base>"), v)
                continue
            e = i["e"]
            if e and e.get("k") == "ctor" and not e.get("a") and str(e.get("t", "")).startswith("std::array<"):
                continue  # not initialized
            self.write(st, L_f(fr.this, i["field"]), self.ev(st, fr, i["e"]))

    def run(self, fn, this=None, args=None, facts=(), st=None):
        st = st or State()
        for f in facts:
            self.assume(st, f)
        if this is None:
            this = L_root(mk("var", "this"))
        al = []
        for i, p in enumerate(fn["params"]):
            a = args[i] if args is not None and i < len(args) and args[i] is not None else None
            if a is None:
                r = mk("var", "arg", i)
                st.store.setdefault(r, mk("s", "arg", i))
                al.append(("l", L_root(r)))
            elif isinstance(a, tuple):
                al.append(a)
            else:
                r = mk("var", "arg", i)
                st.store[r] = a
                al.append(("l", L_root(r)))
        if fn.get("kind") == "ctor" and root_of(this) not in st.store:
            self.write(st, this, mk("new", "obj"))
        v = self.call_fn(st, fn, this, al)
        if isinstance(v, tuple):
            v = self.read(st, v[1])
        self.result = v
        self.state = st
        self.this = this
        return v

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        """returns the fallthrough state (or None/dead)"""
        if s is None or st is None or st.dead:
            return st
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.notes.append("stmt %s at %s" % (s.get("c", k), s.get("ln")))
            return st
        return m(st, fr, s)

    def s_blk(self, st, fr, s):
        for x in s["s"]:
            if st is None or st.dead:
                return st
            st = self.stmt(st, fr, x)
        return st

    def s_nop(self, st, fr, s):
        return st

    def s_expr(self, st, fr, s):
        self.ev(st, fr, s["e"], True)
        return st

    def s_decl(self, st, fr, s):
        for v in s["v"]:
            self.decl(st, fr, v)
        return st

    def decl(self, st, fr, v):
        if v.get("ref") and v.get("init") is not None:
            e = v["init"]
            l = self.evl(st, fr, e)
            fr.env[v["id"]] = l
            return
        if v.get("static"):
            r = mk("var", "g", "static:%s" % v["n"])
            fr.env[v["id"]] = L_root(r)
            if v.get("const") and v.get("init") is not None:
                st.store[r] = self.ev(st, fr, v["init"])
            return
        r = mk("var", "l", fr.uid, v["id"], v["n"])
        fr.env[v["id"]] = L_root(r)
        if v.get("init") is not None:
            st.store[r] = self.ev(st, fr, v["init"])
        else:
            st.store[r] = mk("uninit", r)
        self.emit(st, "decl", v, name=v["n"], t=v["t"], val=st.store[r], root=r)

    def branch(self, st, fr, c):
        """c: cond Term already evaluated in st. returns (then-state, else-state)"""
        c = self.simp(st, c)
        a, b = st, st.copy()
        a = st.copy()
        self.assume(a, c)
        self.assume(b, lnot(c))
        if self.derived:
            for x in conj(c) + conj(lnot(c)):
                self.derived.discard(x)
        for x in (a, b):
            if not x.dead:
                self.refute(x)
        return a, b

    def refute(self, st):
        # a disjunction whose alternatives are all but one contradicted
        fs = set(st.facts)
        for f in list(st.facts):
            if f.op == "or":
                keep = [x for x in f.args if not any(lnot(y) in fs for y in conj(x))]
                if not keep:
                    st.dead = True
                    return
                if len(keep) == 1:
                    for x in conj(keep[0]):
                        if x not in fs:
                            st.facts.append(x)
                            fs.add(x)

    def s_if(self, st, fr, s):
        if s.get("init"):
            st = self.stmt(st, fr, s["init"])
        if s.get("cvar"):
            self.decl(st, fr, s["cvar"])
        c = self.evb(st, fr, s["c"])
        if st.dead:
            return st
        a, b = self.branch(st, fr, c)
        if not a.dead:
            a = self.stmt(a, fr, s["a"])
        if not b.dead and s.get("b"):
            b = self.stmt(b, fr, s["b"])
        return self.jn(a, b)

    def jn(self, a, b):
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        return self.join(a, b)

    def s_ret(self, st, fr, s):
        v = None
        if s.get("e") is not None:
            if fr.fn["ret"].rstrip().endswith("&"):
                v = ("l", self.evl(st, fr, s["e"]))
            else:
                v = ("v", self.ev(st, fr, s["e"]))
        if st.dead:
            return st
        self.emit(st, "return", s, val=None if v is None else (self.read(st, v[1]) if v[0] == "l" else v[1]), depth=len(self.stack))
        fr.returns.append((st.copy(), v, tuple(self.loops), frozenset(), None))
        st.dead = True
        return st

    def s_break(self, st, fr, s):
        fr.brk[-1].append(st.copy())
        st.dead = True
        return st

    def s_continue(self, st, fr, s):
        fr.cont[-1].append(st.copy())
        st.dead = True
        return st

    def s_label(self, st, fr, s):
        return self.stmt(st, fr, s["s"])

    def s_case(self, st, fr, s):
        return self.stmt(st, fr, s["s"])

    s_default = s_case

    def s_switch(self, st, fr, s):
        v = self.ev(st, fr, s["c"])
        # flatten
        groups = []

        def flat(x):
            if x["k"] in ("case", "default"):
                groups.append([x.get("v"), []])
                flat(x["s"])
            elif x["k"] == "blk" and not groups:
                for y in x["s"]:
                    flat(y)
            else:
                if groups:
                    groups[-1][1].append(x)

        if s["body"]["k"] == "blk":
            for y in s["body"]["s"]:
                flat(y)
        fr.brk.append([])
        conds = []
        for g in groups:
            if g[0] is not None:
                conds.append(eq(v, self.ev(st, fr, g[0])))
            else:
                conds.append(None)
        others = land(*[lnot(c) for c in conds if c is not None])
        cur = None
        nomatch = st.copy()
        self.assume(nomatch, others)
        for g, c in zip(groups, conds):
            e = st.copy()
            self.assume(e, c if c is not None else others)
            if not e.dead:
                self.refute(e)
            cur = self.jn(cur, e if not e.dead else None)
            for x in g[1]:
                if cur is None or cur.dead:
                    break
                cur = self.stmt(cur, fr, x)
        out = cur
        if not any(c is None for c in conds):
            out = self.jn(out, nomatch)
        for b in fr.brk.pop():
            out = self.jn(out, b)
        return out if out is not None else st

    def s_try(self, st, fr, s):
        pre = st.copy()
        self.trydepth = getattr(self, "trydepth", 0) + 1
        out = self.stmt(st, fr, s["body"])
        self.trydepth -= 1
        res = out
        for h in s["h"]:
            hs = pre.copy()
            # anything the body wrote is unknown here
            post = out if out is not None else pre
            for r, v in list((post.store if post else {}).items()):
                if r in hs.store and hs.store[r] is not v:
                    hs.store[r] = mk("s", "exc", r)
            hs.facts = list(pre.facts)
            self.assume(hs, mk("b", mk("s", "threw", s["ln"], self.fresh())))
            if h.get("var"):
                fr.env[h["var"]["id"]] = L_root(mk("var", "l", fr.uid, h["var"]["id"], h["var"]["n"]))
            self.emit(hs, "catch", h.get("var") or s, t=(h.get("var") or {}).get("t"))
            hs = self.stmt(hs, fr, h["body"])
            res = self.jn(res, hs)
        fin = s.get("finally")
        if fin is not None:
            if res is None or res.dead:
                f2 = pre.copy()
                self.stmt(f2, fr, fin)
            else:
                res = self.stmt(res, fr, fin)
        return res if res is not None else st

    def s_omp(self, st, fr, s):
        self.emit(st, "omp", s, d=s["d"])
        self.omp = getattr(self, "omp", []) + [s]
        r = self.stmt(st, fr, s["body"])
        self.omp = self.omp[:-1]
        return r

    # ------------------------------------------------------------ loops
    def s_for(self, st, fr, s):
        if s.get("init"):
            st = self.stmt(st, fr, s["init"])
        if st.dead:
            return st
        cond = (lambda x: self.evb(x, fr, s["c"])) if s.get("c") else None
        inc = (lambda x: self.ev(x, fr, s["inc"], True)) if s.get("inc") else None
        return self.loop(st, fr, s, cond, lambda x: self.stmt(x, fr, s["body"]), inc)

    def s_while(self, st, fr, s):
        return self.loop(st, fr, s, lambda x: self.evb(x, fr, s["c"]), lambda x: self.stmt(x, fr, s["body"]), None)

    def s_do(self, st, fr, s):
        return self.loop(st, fr, s, lambda x: self.evb(x, fr, s["c"]), lambda x: self.stmt(x, fr, s["body"]), None, post=True)

    def s_rfor(self, st, fr, s):
        loc = self.evl(st, fr, s["range"])
        if st.dead:
            return st
        ty = s["range"].get("t", "")
        v0 = self.read(st, loc)
        if v0.op == "fn" and v0.args[0] == "enumerate":
            pass
        r = self.newroot("l", "__i")
        r = mk("var", "l", fr.uid, "rf%s" % s["ln"], "__i")
        st.store[r] = ZERO
        il = L_root(r)
        var = s["var"]

        def cond(x):
            return lt(self.read(x, il), self.csize(x, loc, ty), True)

        def body(x):
            i = self.read(x, il)
            el = self.elemloc(x, loc, ty, i)
            if var.get("ref"):
                fr.env[var["id"]] = el
            else:
                rv = mk("var", "l", fr.uid, var["id"], var["n"])
                x.store[rv] = self.read(x, el)
                fr.env[var["id"]] = L_root(rv)
                if var.get("pytarget"):
                    self.py_assign(x, fr, var["pytarget"], x.store[rv])
            return self.stmt(x, fr, s["body"])

        def inc(x):
            self.write(x, il, add(self.read(x, il), ONE))

        return self.loop(st, fr, s, cond, body, inc)

    def csize(self, st, loc, ty):
        return size(self.read(st, loc))

    def elemloc(self, st, loc, ty, i):
        if MAPT.match(ty):
            i = mk("fn", "entry", i)
        return L_i(loc, i)

    def diff(self, pre, post, path, out, d=0):
        if pre is post:
            return
        if d < 4:
            if post.op == "upd" and (post.args[0] is pre or (pre.op == "upd" and post.args[0] is pre.args[0])):
                keys = {k for t in (pre, post) if t.op == "upd" for k, _ in t.args[1:]}
                for k in keys:
                    self.diff(fld(pre, k), fld(post, k), path + (k,), out, d + 1)
                return
            if pre.op == "upd" and pre.args[0] is post:
                for k, _ in pre.args[1:]:
                    self.diff(fld(pre, k), fld(post, k), path + (k,), out, d + 1)
                return
            if pre.op == "rec" and post.op == "rec" and [x[0] for x in pre.args] == [x[0] for x in post.args]:
                for (k, x), (_, y) in zip(pre.args, post.args):
                    self.diff(x, y, path + (k,), out, d + 1)
                return
            if pre.op == "it" and post.op == "it" and pre.args[0] is post.args[0]:
                self.diff(pre.args[1], post.args[1], path + ("<pos>",), out, d + 1)
                return
            if pre.op == "mit" and post.op == "mit" and pre.args[0] is post.args[0] and pre.args[2:] == post.args[2:]:
                self.diff(pre.args[1], post.args[1], path + ("<key>",), out, d + 1)
                return
        out[path] = 1

    def getp(self, v, path):
        for k in path:
            v = v.args[1] if (k == "<pos>" and v.op == "it" or k == "<key>" and v.op == "mit") else fld(v, k)
        return v

    def setp(self, v, path, x):
        if not path:
            return x
        if path[0] == "<pos>":
            if v.op == "it":
                return mk("it", v.args[0], x)
            return x
        if path[0] == "<key>":
            if v.op == "mit":
                return mk("mit", v.args[0], x, *v.args[2:])
            return x
        return upd(v, path[0], self.setp(fld(v, path[0]), path[1:], x))

    def mini(self, paths):
        """drop paths below another path"""
        ps = sorted(paths, key=lambda x: len(x[1]))
        out = []
        for r, p in ps:
            if not any(r is r2 and p[:len(p2)] == p2 for r2, p2 in out):
                out.append((r, p))
        return out

    def loop(self, st, fr, node, cond, body, inc, post=False):
        if st.dead:
            return st
        depth = len(self.loops)
        changed = {}
        pre_roots = set(st.store)
        basest = st.copy()
        nret = len(fr.returns)

        def run_once(subs, muted, loopd, only=None):
            """run cond+body+inc from the havocked state; returns (head, end, exits, breaks, condterm)"""
            x = basest.copy()
            for (r, p), h in subs.items():
                v = x.store.get(r)
                if v is None:
                    v = self.initial(r)
                x.store[r] = self.setp(v, p, h)
            head = x.copy()
            if muted:
                self.muted += 1
            self.loops.append(loopd)
            fr.brk.append([])
            fr.cont.append([])
            rets = len(fr.returns)
            ct = TRUE
            exit_ = None
            try:
                if cond is not None and not post:
                    ct = cond(x)
                    if not x.dead:
                        # a test besides the bound of the counter ends the loop early, like a break
                        rest = land(*[c for c in conj(ct) if c is not only]) if only is not None else TRUE
                        if rest is not TRUE:
                            a, b = self.branch(x, fr, only)
                            x, exit_ = a, b
                            if not x.dead:
                                a, b = self.branch(x, fr, rest)
                                x = a
                                if not b.dead:
                                    fr.brk[-1].append(b)
                        else:
                            a, b = self.branch(x, fr, ct)
                            x, exit_ = a, b
                        head.facts = list(a.facts)
                if not x.dead:
                    self.loopfacts(x, loopd)
                    x = body(x)
                for c in fr.cont[-1]:
                    x = self.jn(x, c)
                if x is not None and not x.dead and inc is not None:
                    inc(x)
                if post and x is not None and not x.dead and cond is not None:
                    ct = cond(x)
                    if not x.dead:
                        a, b = self.branch(x, fr, ct)
                        x, exit_ = a, b
            finally:
                fr.cont.pop()
                brks = fr.brk.pop()
                self.loops.pop()
                if muted:
                    self.muted -= 1
                    del fr.returns[rets:]
            return head, x, exit_, brks, ct

        subs = {}
        hn = 0
        end = None
        for _ in range(7):
            head, end, exit_, brks, ct = run_once(subs, True, ("?",))
            new = {}
            for s2 in [end] + brks + [rs for rs in []]:
                if s2 is None or s2.dead:
                    continue
                for r, v in s2.store.items():
                    if r not in pre_roots and r.op == "var" and r.args[0] in ("l", "t", "ret"):
                        continue
                    hv = head.store.get(r)
                    if hv is None:
                        hv = self.initial(r)
                    if hv is not v:
                        o = {}
                        self.diff(hv, v, (), o)
                        for p in o:
                            new[(r, p)] = 1
            # remove already havocked
            fresh = [k for k in new if k not in subs]
            if not fresh:
                break
            for k in fresh:
                changed[k] = 1
            keep = self.mini(list(subs) + fresh)
            ns = {}
            for k in keep:
                ns[k] = subs.get(k)
                if ns[k] is None:
                    ns[k] = mk("s", "H", depth, node["ln"], self.hname(k, fr))
                    hn += 1
            subs = ns
        # what keeps its size through a round keeps it through the loop
        sized = {}
        if end is not None:
            for k, h in subs.items():
                ok = h not in self.mapvals
                for s2 in [end] + brks:
                    if s2 is None or s2.dead:
                        continue
                    ev = self.endval(s2, k)
                    if ev is None or ev is not h and (ev.op not in ("astore", "mapped", "ite") or size(ev) is not mk("fn", "size", h)):
                        ok = False
                if ok:
                    v0 = basest.store.get(k[0])
                    if v0 is None:
                        v0 = self.initial(k[0])
                    sized[h] = size(self.getp(v0, k[1]))
        unsize = lambda t: subst(t, {mk("fn", "size", h): z for h, z in sized.items()}) if sized and t is not None else t
        # induction variables
        ivs = {}
        bounds = None
        if end is not None and not end.dead:
            for k, h in subs.items():
                pv = self.endval(end, k)
                if pv is None:
                    continue
                d = sub(pv, h)
                if isc(d) and d is not ZERO:
                    v0 = basest.store.get(k[0])
                    if v0 is None:
                        v0 = self.initial(k[0])
                    lo = self.getp(v0, k[1])
                    hi = unsize(self.bound(ct, h, d.args[0], lo))
                    if post and hi is not None:
                        # the test is made on the value before the step: the body runs once more
                        hi = add(hi, d)
                    ivs[k] = (h, lo, hi, d.args[0])
        main = None
        for k, (h, lo, hi, stp) in ivs.items():
            if hi is not None:
                main = k
                break
        nsubs = dict(subs)
        if main is not None:
            h, lo, hi, stp = ivs[main]
            iv = mk("s", "iv", depth, lo, hi, num(stp))
            loopd = mk("loop", lo, hi, num(stp), depth)
            nsubs[main] = iv
            for k, (h2, lo2, hi2, stp2) in ivs.items():
                if k != main:
                    # linear in the main induction variable
                    nsubs[k] = add(lo2, scale(sub(iv, lo), stp2 / stp))
            self.loopinfo[loopd] = dict(iv=iv, lo=lo, hi=hi, step=stp, ln=node["ln"], kind="for")
        else:
            iv = None
            loopd = mk("loop", "w", node["ln"], depth)
            self.loopinfo[loopd] = dict(iv=None, ln=node["ln"], kind="while")
        self.emit(st, "loop", node, loop=loopd)
        # H symbols may appear inside lo/hi of other ivs only through pre-state values: none
        only = None
        if main is not None and not post and len(conj(ct)) > 1:
            h, lo, hi, stp = ivs[main]
            for c in conj(ct):
                if unsize(self.bound(c, h, stp, lo)) is hi:
                    only = subst(unsize(c), {subs[k]: nsubs[k] for k in subs if nsubs[k] is not subs[k]})
                    break
        self.loopinfo[loopd]["sized"] = sized
        old = {h: SIZES.get(h) for h in sized}
        SIZES.update(sized)
        try:
            head, end, exit_, brks, ct = run_once(nsubs, False, loopd, only)
        finally:
            for h, z in old.items():
                if z is None:
                    del SIZES[h]
                else:
                    SIZES[h] = z
        self.loopinfo[loopd]["carried"] = {}
        self.loopinfo[loopd]["cond"] = ct
        for k in nsubs:
            v0 = basest.store.get(k[0])
            if v0 is None:
                v0 = self.initial(k[0])
            e1 = self.endval(end, k) if end is not None and not end.dead else None
            self.loopinfo[loopd]["carried"][nsubs[k]] = (self.getp(v0, k[1]), e1, k)
        # exit state
        res = exit_ if exit_ is not None else None
        out = None
        brkc = []
        if end is None:
            end = exit_
        normal = None
        if exit_ is not None and not exit_.dead or cond is not None:
            normal = basest.copy()
            if post and end is not None:
                pass
            for k in nsubs:
                v0 = normal.store.get(k[0])
                if v0 is None:
                    v0 = self.initial(k[0])
                p0 = self.getp(v0, k[1])
                ev = self.endval(end, k) if end is not None and not end.dead else nsubs[k]
                if post and exit_ is not None and not exit_.dead:
                    ev2 = self.endval(exit_, k)
                    if ev is nsubs[k] or end.dead:
                        ev = ev2 if ev2 is not None else ev
                fv = None
                if k in ivs and k != main and main is not None and not brks and abs(ivs[main][3]) == 1 and ivs[main][2] is not None:
                    mx = self.summ(main, ivs[main][1], iv, TRUE, loopd, iv, ivs[main], False)
                    if mx.op != "fold":
                        fv = add(ivs[k][1], scale(sub(mx, ivs[main][1]), ivs[k][3] / ivs[main][3]))
                if fv is None:
                    fv = self.summ(k, p0, nsubs[k], ev, loopd, iv, ivs.get(k), bool(brks))
                normal.store[k[0]] = self.setp(v0, k[1], fv)
            if not brks and not post:
                m = {nsubs[k]: self.getp(normal.store[k[0]], k[1]) for k in nsubs if nsubs[k].op == "s"}
                nc = subst(lnot(ct), m)
                if iv is None or True:
                    xs = conj(nc)
                    for x in xs:
                        if x is FALSE:
                            continue
                        if x not in normal.facts:
                            self.derived.add(x)
                        self.assume(normal, x) if x is not FALSE else None
            if brks:
                # everything changed may have stopped early
                pass
        out = normal
        if brks:
            # break states: written locations become opaque exit symbols related to the break condition
            bs = None
            for b in brks:
                bs = self.jn(bs, b)
            if out is None or (cond is None):
                out = None
            b2 = basest.copy()
            # the round in which the loop stopped gets a name of its own: later loops may have the same counter
            last = {iv: mk("s", "last", loopd)} if iv is not None else {}
            if last:
                seen = set()
                for x in bs.facts + list(bs.store.values()):
                    subterms(x, seen)
                last.update({x: x for x in seen if x.op == "exists" and x.args[0] is loopd})
            lf = (lambda t: subst(t, last)) if last else (lambda t: t)
            for k in nsubs:
                v0 = b2.store.get(k[0])
                if v0 is None:
                    v0 = self.initial(k[0])
                bv = self.endval(bs, k)
                bv = lf(bv) if bv is not None else None
                b2.store[k[0]] = self.setp(v0, k[1], bv if bv is not None else mk("s", "bx", self.fresh()))
            # values changed only on the break path
            for r, v in bs.store.items():
                if r not in pre_roots and r.op == "var" and r.args[0] in ("l", "t", "ret"):
                    continue
                if not any(k[0] is r for k in nsubs) and r in head.store and head.store[r] is not v:
                    b2.store[r] = lf(v)
            b2.facts = list(basest.facts)
            have = set(b2.facts)
            bc = land(*[f for f in bs.facts if f not in have])
            ex = self.exists(loopd, bc)
            self.loopinfo[loopd]["brk"] = bc
            self.loopinfo[loopd]["bstate"] = bs
            self.assume(b2, ex)
            for f in bs.facts:
                f = lf(f)
                if f not in b2.facts:
                    b2.facts.append(f)
            if out is not None:
                self.assume(out, lnot(ex))
                if ex is TRUE:
                    out.dead = False
                    out.facts = list(basest.facts)
            out = self.jn(out, b2)
        out = self.loopreturns(fr, nret, loopd, basest, out)
        if out is None:
            st.dead = True
            return st
        return out

    def exists(self, loopd, c):
        """some iteration of the loop meets c (the range of the induction variable is part of the loop)"""
        if loopd.args[0] != "w":
            lo, hi, step = loopd.args[:3]
            iv = mk("s", "iv", loopd.args[3], lo, hi, step)
            rng = {le(lo, iv, True), lt(iv, hi, True), lnot(le(hi, iv, True)), lnot(lt(iv, lo, True))}
            strip = lambda c: land(*[x for x in conj(c) if x not in rng])
            c = strip(lor(*[strip(d) for d in c.args]) if c.op == "or" else c)
            if c is TRUE and step is ONE:
                return lt(lo, hi, True)
            if c is FALSE:
                return FALSE
        elif c is TRUE:
            return TRUE
        return mk("b", mk("exists", loopd, c))

    def loopreturns(self, fr, nret, loopd, basest, out):
        """returns from inside the loop happen if some iteration meets their condition; the loop ends otherwise"""
        rs = [r for r in fr.returns[nret:] if not r[0].dead]
        del fr.returns[nret:]
        if not rs:
            return out
        have = set(basest.facts)
        cs = []
        for s, v, lp, cov, _ in rs:
            cs.append(land(*[f for f in s.facts if f not in have and f not in cov]))
        ex = self.exists(loopd, lor(*cs))
        for s, v, lp, cov, _ in rs:
            cov = cov | {f for f in s.facts if f not in have}
            s.facts.insert(len([f for f in s.facts if f in have]), ex) if ex is not TRUE and ex not in s.facts else None
            fr.returns.append((s, v, lp, cov, ex))
        if out is not None and not out.dead:
            self.assume(out, lnot(ex))
        return out

    def hname(self, k, fr):
        r, p = k
        return (r,) + tuple(p)

    def loopfacts(self, x, loopd):
        if isinstance(loopd, Term) and loopd.args[0] != "w":
            iv = mk("s", "iv", len(self.loops) - 1, *loopd.args[:3])
            if loopd.args[2].args[0] > 0:
                self.assume(x, le(loopd.args[0], iv, True))
            else:
                self.assume(x, le(iv, loopd.args[0], True))

    def endval(self, st, k):
        v = st.store.get(k[0])
        if v is None:
            return None
        return self.getp(v, k[1])

    def bound(self, ct, h, step, lo):
        for c in conj(ct):
            if c.op in ("lei", "le", "lt"):
                p = c.args[0]
                d = poly_of(p)
                m = ((h, 1),)
                if m in d and sum(1 for mm in d for a, e in mm if a is h) == 1:
                    k = d[m]
                    rest = scale(sub(p, scale(h, k)), 1 / k)  # h + rest <= 0  (k>0)
                    if h in subterms(rest):
                        continue
                    if k > 0 and step > 0:
                        return add(neg(rest), ONE) if c.op == "lei" else neg(rest)
                    if k < 0 and step < 0:
                        return sub(neg(rest), ONE) if c.op == "lei" else neg(rest)
            if c.op == "not" and c.args[0].op == "eq":
                p = c.args[0].args[0]
                d = poly_of(p)
                m = ((h, 1),)
                if m in d:
                    k = d[m]
                    rest = scale(sub(p, scale(h, k)), 1 / k)
                    if h not in subterms(rest):
                        return neg(rest)
        return None

    def summ(self, k, p0, h, ev, loopd, iv, ivinfo, brk):
        if ev is None or ev is h:
            return p0
        if ivinfo is not None:
            h0, lo, hi, stp = ivinfo
            if h is iv and hi is not None:
                if abs(stp) == 1:
                    return hi if (isc(sub(hi, lo)) and sub(hi, lo).args[0] >= 0) or lo is ZERO and hi.op == "fn" and hi.args[0] == "size" else (tmax(lo, hi) if stp > 0 else tmin(lo, hi))
            return mk("fold", loopd, p0, h, ev)
        # sequences that only grow
        if ev.op == "seq" and ev.args and ev.args[0] == ("all", h):
            rest = ev.args[1:]
            if not any(h in subterms(r) for r in rest) and not brk:
                return seq(parts_of(p0) + [("loop", loopd, tuple(rest))])
        # element-wise stores
        if iv is not None and not brk:
            idx, v, base = None, None, ev
            if ev.op == "astore" and ev.args[0] is h:
                idx, v = ev.args[1], ev.args[2]
                cell = mk("sel", h, idx)
                cellsym = mk("s", "old", depth_of(loopd))
                v2 = subst(v, {cell: sel(p0, idx)}) if injective(idx, iv) else v
                if h not in subterms(v2):
                    return mk("mapped", p0, iv, loopd.args[0], loopd.args[1], idx, v2)
            if ev.op == "ite" and abs(loopd.args[2].args[0] if isc(loopd.args[2]) else 0) == 1:
                ls = leaves(ev)
                at = {x.args[1] for x in ls if x.op == "astore" and x.args[0] is h}
                if at == {iv} and all(x is h or x.op == "astore" and x.args[0] is h for x in ls):
                    def pick(t):
                        if t.op == "ite":
                            return ite(t.args[0], pick(t.args[1]), pick(t.args[2]))
                        return mk("sel", h, iv) if t is h else t.args[2]
                    v2 = subst(pick(ev), {mk("sel", h, iv): sel(p0, iv)})
                    if h not in subterms(v2):
                        return mk("mapped", p0, iv, loopd.args[0], loopd.args[1], iv, v2)
        # a flag that is set once and stays set
        if not brk and (p0 in (ZERO, ONE, TRUE, FALSE)) and (isbool(ev) or ev.op == "ite" and all(x in (h, ZERO, ONE, TRUE, FALSE) or isbool(x) for x in leaves(ev))):
            up = p0 in (ZERO, FALSE)
            hb = mk("b", h)
            e = {w: tobool(subst(tobool(ev), {h: num(w), hb: TRUE if w else FALSE})) for w in (0, 1)}
            if h not in subterms(e[0]) and h not in subterms(e[1]):
                if up and e[1] is TRUE:
                    return ite(self.exists(loopd, e[0]), ONE, ZERO)
                if not up and e[0] is FALSE:
                    return ite(self.exists(loopd, lnot(e[1])), ZERO, ONE)
        r = self.extreme(p0, h, ev, loopd, iv, brk)
        if r is not None:
            return r
        return mk("fold", loopd, p0, h, ev)

    def extreme(self, p0, h, ev, loopd, iv, brk):
        """the index of a greatest or smallest element found by hand"""
        if brk or iv is None or p0 is not ZERO or ev.op != "ite" or {ev.args[1], ev.args[2]} != {h, iv} or loopd.args[0] not in (ZERO, ONE) or loopd.args[2] is not ONE:
            return None
        c = ev.args[0] if ev.args[1] is iv else lnot(ev.args[0])
        n = loopd.args[1]
        at = [t for t in subterms(c) if t.op == "sel" and t.args[1] in (h, iv)]
        seqs = {t.args[0] for t in at}
        if len(seqs) != 1:
            return None
        v = seqs.pop()
        if mk("fn", "size", v) is not n and size(v) is not n:
            return None
        x, y = mk("sel", v, h), mk("sel", v, iv)
        L, R = mk("s", "left"), mk("s", "right")
        g = subst(c, {x: L, y: R})
        if h in subterms(g) or iv in subterms(g):
            return None
        from .models import LEFT, RIGHT
        less = subst(g, {L: LEFT, R: RIGHT})
        # a strict weak order keeps the first greatest; written with <= it keeps the last one, which is as great
        swap = subst(g, {L: RIGHT, R: LEFT})
        if entails([less], lnot(swap)):
            return mk("fn", "max_element", v, less)
        if entails([lnot(swap)], less):
            return mk("fn", "max_element", v, lnot(swap))
        return None

    # ------------------------------------------------------------ expressions
    def evb(self, st, fr, e):
        return tobool(self.ev(st, fr, e))

    def ev(self, st, fr, e, stmt=False):
        if e is None:
            return mk("void")
        if st.dead:
            return mk("s", "dead")
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        if "cv" in e and e["k"] not in ("call",):
            return num(int(e["cv"]))
        if "cf" in e and e["k"] in ("var", "call"):
            return numstr(e["cf"])
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.notes.append("expr %s at %s" % (e.get("c", k), e.get("ln")))
            for x in e.get("e", []) or []:
                if isinstance(x, dict):
                    self.ev(st, fr, x)
            return mk("s", "unk", e.get("c", k), self.fresh())
        r = m(st, fr, e)
        if isinstance(r, tuple):
            return self.read(st, r[1])
        return r

    def evl(self, st, fr, e):
        """location of e (a temporary is materialised when e is a prvalue)"""
        k = e["k"]
        if st.dead:
            return self.temp(st, mk("s", "dead"))
        m = getattr(self, "l_" + k, None)
        if m is not None:
            r = m(st, fr, e)
            if r is not None:
                return r
        if k in ("call", "cond", "ctor"):
            r = getattr(self, "e_" + k)(st, fr, e)
            if isinstance(r, tuple):
                return r[1]
            return self.temp(st, r)
        return self.temp(st, self.ev(st, fr, e))

    def ev_arg(self, st, fr, e):
        """argument passing: keep the location for lvalues"""
        if e.get("k") in ("lambda", "int", "flt", "str"):
            return ("v", self.ev(st, fr, e))
        if (e.get("lv") or e["k"] in ("var", "mem", "idx", "this")) and not e.get("ld"):
            return ("l", self.evl(st, fr, e))
        if e["k"] == "call":
            r = self.e_call(st, fr, e)
            if isinstance(r, tuple):
                return r
            return ("v", r)
        if e["k"] == "cast" and e.get("kind") == "LValueBitCast":
            return ("l", self.evl(st, fr, e["e"]))
        return ("v", self.ev(st, fr, e))

    def argv(self, st, a):
        return self.read(st, a[1]) if a[0] == "l" else a[1]

    # --- leaves
    def e_int(self, st, fr, e):
        return num(int(e["v"]))

    def e_flt(self, st, fr, e):
        return numstr(e["v"])

    def e_str(self, st, fr, e):
        return mk("str", e["v"] if "v" in e else "?")

    def e_null(self, st, fr, e):
        return NULL

    def e_zero(self, st, fr, e):
        t = e.get("t", "")
        if isint(t) or isfloat(t):
            return ZERO
        if t.endswith("*"):
            return NULL
        return mk("new", t)

    def e_this(self, st, fr, e):
        return mk("addr", fr.this)

    def l_this(self, st, fr, e):
        return None

    def e_fn(self, st, fr, e):
        return mk("fnref", e["q"], e.get("f"))

    def l_var(self, st, fr, e):
        i = e["id"]
        f = fr
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.parent
        if e.get("sc") in ("global", "static"):
            return L_root(mk("var", "g", e.get("q") or e["n"]))
        return L_root(mk("var", "free", e["n"], i))

    def e_var(self, st, fr, e):
        return self.read(st, self.l_var(st, fr, e))

    def l_mem(self, st, fr, e):
        o = e["o"]
        if e.get("arrow"):
            if o["k"] == "call" and o.get("op") == "->":
                ptr = self.ev(st, fr, o)
            else:
                ptr = self.ev(st, fr, o)
            if ptr.op == "addr":
                b = ptr.args[0]
            else:
                self.emit(st, "deref", e, ptr=ptr)
                b = self.deref(st, ptr)
        else:
            b = self.evl(st, fr, o)
        return L_f(b, e["n"])

    def e_mem(self, st, fr, e):
        return self.read(st, self.l_mem(st, fr, e))

    def l_idx(self, st, fr, e):
        o = e["o"]
        i = self.ev(st, fr, e["i"])
        if "[" in o.get("t", "") or o["k"] in ("var", "mem") and not o.get("t", "").endswith("*"):
            b = self.evl(st, fr, o)
        else:
            p = self.ev(st, fr, o)
            b = self.deref(st, p) if p.op in ("addr",) else (p.args[0] if p.op == "it" else L_root(mk("var", "deref", p)))
            if p.op == "addr" and p.args[0].op == "Li":
                b = p.args[0].args[0]
                i = add(i, p.args[0].args[1])
            elif p.op == "it":
                i = add(i, p.args[1])
        self.emit(st, "index", e, loc=b, idx=i, n=e.get("n"), node=e, base=self.read(st, b))
        return L_i(b, i)

    def e_idx(self, st, fr, e):
        return self.read(st, self.l_idx(st, fr, e))

    # --- operators
    def l_un(self, st, fr, e):
        op = e["op"]
        if op == "*":
            p = self.ev(st, fr, e["e"])
            if p.op != "addr":
                self.emit(st, "deref", e, ptr=p)
            return self.deref(st, p)
        if op in ("++", "--"):
            l = self.evl(st, fr, e["e"])
            self.store(st, e, l, add(self.read(st, l), num(1 if op == "++" else -1)))
            return l
        return None

    def e_un(self, st, fr, e):
        op = e["op"]
        if op == "*":
            return self.read(st, self.l_un(st, fr, e))
        if op in ("++", "--", "p++", "p--"):
            l = self.evl(st, fr, e["e"])
            v = self.read(st, l)
            d = num(1 if "+" in op else -1)
            if v.op == "it":
                nv = mk("it", v.args[0], add(v.args[1], d))
            else:
                nv = add(v, d)
            if op in ("--", "p--") and e.get("t", "").replace("const ", "").startswith("unsigned"):
                self.emit(st, "usub", e, a=v, b=ONE)
            self.store(st, e, l, nv)
            return v if op[0] == "p" else nv
        if op == "&":
            x = e["e"]
            if x["k"] == "fn":
                return self.ev(st, fr, x)
            return mk("addr", self.evl(st, fr, x))
        v = self.ev(st, fr, e["e"])
        if op == "-":
            return self.vneg(v)
        if op == "+":
            return v
        if op == "!":
            return lnot(v)
        if op == "~":
            return self.bitsof(fn("~", v), e)
        return fn("un" + op, v)

    def vneg(self, v):
        return neg(v)

    def store(self, st, node, loc, v):
        h = self.hooks.get("store")
        if h is not None:
            h(self, st, node, loc, v)
        self.write(st, loc, v)
        self.emit(st, "store", node, loc=loc, val=v)

    def arith(self, op, a, b, t, node=None):
        if op == "+":
            if a.op == "addr" and a.args[0].op == "Li":
                return mk("addr", L_i(a.args[0].args[0], add(a.args[0].args[1], b)))
            if a.op == "addr" and node is not None and node.get("t", "").endswith("*"):
                return mk("addr", L_i(a.args[0], b))
            if a.op == "str" or b.op == "str" or (a.op == "fn" and a.args[0] == "cat"):
                return fn("cat", a, b)
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if isint(t):
                if isc(a) and isc(b) and b.args[0] != 0:
                    q = abs(a.args[0]) // abs(b.args[0])
                    return num(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
                if b is ONE:
                    return a
                return fn("idiv", a, b)
            return div(a, b)
        if op == "%":
            if isc(a) and isc(b) and b.args[0] != 0 and a.args[0] >= 0:
                return num(a.args[0] % b.args[0])
            return fn("imod", a, b)
        if op in ("<", "<=", ">", ">="):
            ii = True
            if node is not None:
                ii = isint(node["l"].get("t", "")) and isint(node["r"].get("t", ""))
            if a.op == "addr" or b.op == "addr":
                return tobool(fn("ptrcmp" + op, a, b))
            if op == "<":
                return lt(a, b, ii)
            if op == "<=":
                return le(a, b, ii)
            if op == ">":
                return lt(b, a, ii)
            return le(b, a, ii)
        if op in ("==", "!="):
            r = eq(a, b)
            return r if op == "==" else lnot(r)
        if op in ("&", "|", "^", "<<", ">>"):
            if isc(a) and isc(b):
                x, y = int(a.args[0]), int(b.args[0])
                return num({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if y >= 0 and y < 200 else 0, ">>": x >> y if y >= 0 else 0}[op])
            if op in ("&", "|", "^") and isbool(a) and isbool(b):
                if op == "&":
                    return land(a, b)
                if op == "|":
                    return lor(a, b)
            if op in ("&", "|", "^"):
                a, b = sorted((a, b))
            return self.bitsof(fn(op, a, b), node if node is not None else {"t": t})
        return fn("op" + op, a, b)

    def e_bin(self, st, fr, e):
        op = e["op"]
        if op == "&&" or op == "||":
            a = self.evb(st, fr, e["l"])
            a = self.simp(st, a)
            if (op == "&&" and a is FALSE) or (op == "||" and a is TRUE):
                return a
            s2 = st.copy()
            self.assume(s2, a if op == "&&" else lnot(a))
            if s2.dead:
                return a
            keep = dict(s2.store)
            b = self.evb(s2, fr, e["r"])
            for r, v in s2.store.items():
                o = st.store.get(r)
                if o is None:
                    if r not in keep:
                        st.store[r] = v
                    elif keep[r] is not v:
                        st.store[r] = v
                elif o is not v:
                    st.store[r] = self.merge(a if op == "&&" else lnot(a), v, o)
            return land(a, b) if op == "&&" else lor(a, b)
        if op == ",":
            self.ev(st, fr, e["l"])
            return self.ev(st, fr, e["r"])
        if op == "=":
            v = self.ev(st, fr, e["r"])
            l = self.evl(st, fr, e["l"])
            self.store(st, e, l, v)
            return ("l", l)
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            b = self.ev(st, fr, e["r"])
            l = self.evl(st, fr, e["l"])
            a = self.read(st, l)
            t = e.get("ct") or e.get("t", "")
            if op == "-=" and t.replace("const ", "").startswith("unsigned"):
                self.emit(st, "usub", e, a=a, b=b)
            v = self.arith(op[:-1], a, b, t)
            v = self.narrow(v, t, e["l"].get("t", ""))
            self.store(st, e, l, v)
            return ("l", l)
        a = self.ev(st, fr, e["l"])
        b = self.ev(st, fr, e["r"])
        t = e["l"].get("t", "")
        if op in ("==", "!=") and self.boolx(e["l"]) and self.boolx(e["r"]):
            a, b = tobool(a), tobool(b)
            r = lor(land(a, b), land(lnot(a), lnot(b)))
            return r if op == "==" else lnot(r)
        if op == "+" and self.uadds and t.replace("const ", "").startswith("unsigned long") and not isc(add(a, b)):
            self.emit(st, "uadd", e, a=a, b=b)
        if op == "-" and t.replace("const ", "").startswith("unsigned") and b is not ZERO and not (isc(a) and isc(b)):
            self.emit(st, "usub", e, a=a, b=b)
        return self.arith(op, a, b, t, e)

    @staticmethod
    def boolx(x):
        while isinstance(x, dict) and x.get("k") == "cast" and isinstance(x.get("e"), dict):
            x = x["e"]
        return x.get("t", "").replace("const ", "") == "bool"

    def l_bin(self, st, fr, e):
        if e["op"] == "=" or (e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=")):
            r = self.e_bin(st, fr, e)
            return r[1]
        return None

    def e_cond(self, st, fr, e):
        c = self.evb(st, fr, e["c"])
        if st.dead:
            return mk("s", "dead")
        # assert: one arm does not return
        na, nb = self.noret(e["a"]), self.noret(e["b"])
        if nb or na:
            cc = c if nb else lnot(c)
            bad = st.copy()
            self.assume(bad, lnot(cc))
            if not bad.dead:
                self.emit(bad, "assert", e, cond=cc)
            for x in conj(cc):
                if x not in st.facts:
                    self.derived.add(x)
            self.assume(st, cc)
            self.refute(st)
            if st.dead:
                return mk("void")
            return self.ev(st, fr, e["a"] if nb else e["b"])
        a, b = self.branch(st, fr, c)
        lv = e.get("lv") and e["a"].get("lv") and e["b"].get("lv")
        va = self.ev(a, fr, e["a"]) if not a.dead else None
        vb = self.ev(b, fr, e["b"]) if not b.dead else None
        if va is None or a.dead:
            st.store, st.facts, st.dead = b.store, b.facts, b.dead
            return vb if vb is not None else mk("s", "dead")
        if vb is None or b.dead:
            st.store, st.facts, st.dead = a.store, a.facts, a.dead
            return va
        j = self.join(a, b)
        st.store, st.facts, st.dead = j.store, j.facts, j.dead
        return self.merge(self.simp(st, c), va, vb)

    def noret(self, e):
        if e.get("nr"):
            return True
        if e["k"] == "bin" and e["op"] == ",":
            return self.noret(e["r"]) or self.noret(e["l"])
        return False

    WID = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
           "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "bool": 1, "unsigned": 32}

    def bitsof(self, v, e):
        """v as the type of e holds it, where widths matter"""
        t = str(e.get("t", "")).replace("const ", "")
        return fn("narrow", lit(t), v) if self.bits and self.WID.get(t) else v

    def narrow(self, v, ft, tt):
        ft = ft.replace("const ", "")
        tt = tt.replace("const ", "").replace("&", "").strip()
        if isc(v):
            if isint(tt) and isint(ft):
                w = self.WID.get(tt)
                x = int(v.args[0])
                if w and w > 1:
                    x &= (1 << w) - 1
                    if not tt.startswith("unsigned") and x >> (w - 1):
                        x -= 1 << w
                    # keep unsigned "-1" sentinels readable
                    if v.args[0] < 0 and tt.startswith("unsigned"):
                        return num(x)
                    return num(x)
            if isfloat(ft) and isint(tt):
                return fn("trunc0", v)
            return v
        if isfloat(ft) and isint(tt):
            if tt == "bool":
                return tobool(v)
            if v.op == "fn" and v.args[0] in ("floor", "ceil", "round", "trunc0"):
                return v
            return fn("trunc0", v)
        wf, wt = self.WID.get(ft), self.WID.get(tt)
        if wf and wt and wt < wf:
            if wt == 1:
                return tobool(v)
            if isbool(v):
                return v
            return fn("narrow", lit(tt), v)
        return v

    def e_cast(self, st, fr, e):
        kind = e["kind"]
        if kind in ("ToVoid",):
            self.ev(st, fr, e["e"])
            return mk("void")
        v = self.ev(st, fr, e["e"])
        if kind in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return tobool(v)
        if kind == "IntegralCast" and self.chars and e["ft"].replace("const ", "") in ("char", "signed char") and \
                e["t"].replace("const ", "") == "unsigned char" and not isc(v):
            return v if v.op == "fn" and v.args[0] == "u8" else fn("u8", v)
        if kind == "IntegralCast":
            return self.narrow(v, e["ft"], e["t"])
        if kind == "FloatingToIntegral":
            return self.narrow(v, e["ft"], e["t"])
        if kind == "FloatingCast" and e["t"].replace("const ", "") == "float" and e["ft"].replace("const ", "") != "float":
            if isc(v):
                return num(Fraction(struct.unpack("f", struct.pack("f", float(v.args[0])))[0]))
            return fn("f32", v)
        if kind in ("BitCast", "LValueBitCast") and v.op not in ("addr", "it"):
            return v
        return v

    def l_cast(self, st, fr, e):
        if e["kind"] in ("LValueBitCast",):
            return self.evl(st, fr, e["e"])
        if e["kind"] in ("BaseToDerived", "Dynamic", "DerivedToBase"):
            return self.evl(st, fr, e["e"]) if e.get("lv") else None
        return None

    def e_throw(self, st, fr, e):
        v = self.ev(st, fr, e["e"]) if e.get("e") else None
        self.emit(st, "throw", e, val=v, t=(e.get("e") or {}).get("t"))
        st.dead = True
        return mk("void")

    def e_il(self, st, fr, e):
        return self.ev(st, fr, e["e"][0])

    def e_init(self, st, fr, e):
        vs = [self.ev(st, fr, x) for x in e["e"]]
        if e.get("fs") is not None and len(e["fs"]) >= len(vs):
            if len(vs) == 1 and e.get("rec", "").startswith("std::array"):
                return vs[0]
            return rec(dict(zip(e["fs"], vs)))
        t = e.get("t", "")
        if len(vs) == 1 and (isint(t) or isfloat(t) or t.endswith("*")):
            return vs[0]
        if len(vs) == 0 and (isint(t) or isfloat(t)):
            return ZERO
        return mk("vec", *vs)

    def e_new(self, st, fr, e):
        n = self.ev(st, fr, e["arr"]) if e.get("arr") else None
        r = self.newroot("heap", e["nt"])
        if e.get("init") is not None and n is None:
            st.store[r] = self.ev(st, fr, e["init"])
        self.emit(st, "new", e, t=e["nt"], n=n, root=r)
        return mk("addr", L_root(r))

    def e_delete(self, st, fr, e):
        p = self.ev(st, fr, e["e"])
        self.emit(st, "delete", e, ptr=p)
        return mk("void")

    def e_lambda(self, st, fr, e):
        caps = []
        for c in e["caps"]:
            if c.get("this"):
                continue
            if "id" not in c:
                continue
            f = fr
            loc = None
            while f is not None:
                if c["id"] in f.env:
                    loc = f.env[c["id"]]
                    break
                f = f.parent
            if loc is None:
                continue
            if c.get("byref"):
                caps.append((c["id"], ("l", loc)))
            else:
                caps.append((c["id"], ("v", self.read(st, loc))))
        fid = e["f"]
        if e.get("generic") and e.get("specs"):
            fid = e["specs"][0]
        return mk("lam", fid, fr.this if fr.this is not None else NULL, *caps)

    def call_lambda(self, st, lam, args, node):
        fn_ = self.prog.byid.get(lam.args[0])
        if fn_ is None:
            return None
        if len(self.stack) > self.maxdepth or sum(1 for f in self.stack if f.fn is fn_) > 1:
            return None
        parent = Frame(fn_, self.fresh(), lam.args[1] if lam.args[1] is not NULL else None)
        for cid, (k, v) in lam.args[2:]:
            if k == "l":
                parent.env[cid] = v
            else:
                r = mk("var", "l", parent.uid, cid, "cap")
                st.store[r] = v
                parent.env[cid] = L_root(r)
        return self.call_fn(st, fn_, parent.this, args, node, parent)

    # --- calls
    def e_call(self, st, fr, e):
        q = e.get("q")
        o = e.get("o")
        oloc = None
        if o is not None:
            if e.get("arrow"):
                p = self.ev(st, fr, o)
                if p.op == "addr":
                    oloc = p.args[0]
                else:
                    self.emit(st, "deref", e, ptr=p)
                    oloc = self.deref(st, p)
            elif e.get("op") == "->" or e.get("op") == "*" and not e["a"]:
                oloc = self.evl(st, fr, o)
            else:
                oloc = self.evl(st, fr, o)
        args = [self.ev_arg(st, fr, a) for a in e["a"]]
        if st.dead:
            return mk("s", "dead")
        if q is None:
            c = self.ev(st, fr, e["ce"]) if e.get("ce") else mk("s", "?")
            if c.op == "lam":
                r = self.call_lambda(st, c, args, e)
                if r is not None:
                    return r
            if c.op == "fnref" and c.args[1] in self.prog.byid:
                return self.call_fn(st, self.prog.byid[c.args[1]], None, args)
            self.emit(st, "call", e, q="<indirect>", obj=None, args=[self.argv(st, a) for a in args], fnv=c, node=e, oloc=None, alocs=args)
            return self.opaque_call(st, fr, e, "<indirect>", None, args, c)
        return self.dispatch(st, fr, e, q, oloc, args)

    def dispatch(self, st, fr, e, q, oloc, args):
        h = self.hooks.get(q)
        if h is None:
            h = self.hooks.get("*")
        self.emit(st, "call", e, q=q, obj=(self.read(st, oloc) if oloc is not None else None), oloc=oloc,
                  args=[self.argv(st, a) for a in args], alocs=args, node=e, ta=e.get("ta"))
        if h is not None:
            r = h(self, st, fr, e, q, oloc, args)
            if r is not NotImplemented:
                return r
        if e.get("nr"):
            self.emit(st, "noret", e, q=q)
            st.dead = True
            return mk("void")
        fid = e.get("f")
        fn_ = self.prog.byid.get(fid)
        if oloc is not None and e.get("op") == "()":
            lam = self.read(st, oloc)
            if lam.op == "lam":
                r = self.call_lambda(st, lam, args, e)
                if r is not None:
                    return r
        if fn_ is not None and q not in self.opaque and not (e.get("virt") and not self.devirt(st, e, oloc, fn_)):
            if self.inline_pred is None or self.inline_pred(fn_):
                if len(self.stack) <= self.maxdepth and sum(1 for f in self.stack if f.fn is fn_) == 0:
                    this = oloc
                    return self.call_fn(st, fn_, this, args)
        if fn_ is None and oloc is not None and e.get("op") != "=" and len(args) == 1 and q.endswith("::operator="):
            # member-wise assignment written (or generated) as a plain member call
            self.store(st, e, oloc, self.argv(st, args[0]))
            return ("l", oloc)
        if fn_ is None:
            r = self.model(st, fr, e, q, oloc, args)
            if r is not NotImplemented:
                return r
        return self.opaque_call(st, fr, e, q, oloc, args, None)

    def devirt(self, st, e, oloc, fn_):
        # a virtual call on this class' own object resolves to the static callee unless overridden in the repo
        return not self.prog.overridden(fn_["f"])

    def opaque_call(self, st, fr, e, q, oloc, args, fnv):
        vs = [self.argv(st, a) for a in args]
        ov = [self.read(st, oloc)] if oloc is not None else []
        name = q
        ta = e.get("ta")
        if ta and self.prog.byid.get(e.get("f")) is not None:
            name = q + "<" + ta + ">"
        t = mk("fn", name, *([fnv] if fnv is not None else []), *ov, *vs)
        # effects on what the callee may write
        pts = e.get("pt", [])
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ""
            if a[0] == "l" and pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&"):
                self.write(st, a[1], mk("fn", "out", t, num(i)))
            elif pt.endswith("*") and not pt.startswith("const "):
                v = self.argv(st, a)
                if v.op == "addr":
                    self.write(st, v.args[0], mk("fn", "out", t, num(i)))
        if oloc is not None and "mconst" not in e and not e.get("mstatic") and e.get("k") == "call":
            self.write(st, oloc, mk("fn", "self", t))
        return t

    def e_ctor(self, st, fr, e):
        a = e["a"]
        if e.get("cm") and len(a) == 1:
            return self.ev(st, fr, a[0])
        args = [self.ev_arg(st, fr, x) for x in a]
        if st.dead:
            return mk("s", "dead")
        q = e["q"]
        h = self.hooks.get("ctor:" + e.get("rec", ""))
        if h is not None:
            r = h(self, st, fr, e, q, None, args)
            if r is not NotImplemented:
                return r
        self.emit(st, "ctor", e, q=q, rec=e.get("rec"), args=[self.argv(st, x) for x in args], node=e, t=e.get("t"))
        fn_ = self.prog.byid.get(e.get("f"))
        if fn_ is not None and q not in self.opaque and len(self.stack) <= self.maxdepth and not any(f.fn is fn_ for f in self.stack):
            l = self.temp(st, mk("new", e.get("t", "")), "obj")
            self.call_fn(st, fn_, l, args)
            return self.read(st, l)
        return self.model_ctor(st, fr, e, args)

    def construct(self, st, t, args):
        """an object of class type t built from args by the one constructor that takes them, or None"""
        bare, d = "", 0
        for ch in t.replace("const ", ""):
            d += (ch == "<") - (ch == ">")
            if d == 0 and ch != ">":
                bare += ch
        cs = [f for f in self.prog.funcs if f.get("kind") == "ctor" and f.get("rec") == bare.strip() and len(f["params"]) == len(args)]
        if bare.strip() == "std::pair" and len(args) == 2:
            return rec({"first": self.argv(st, args[0]), "second": self.argv(st, args[1])})
        if len(cs) != 1 or any(f.fn is cs[0] for f in self.stack):
            return None
        l = self.temp(st, mk("new", t), "obj")
        self.call_fn(st, cs[0], l, args)
        return self.read(st, l)

    def model_ctor(self, st, fr, e, args):
        from . import models
        return models.ctor(self, st, fr, e, args)

    def model(self, st, fr, e, q, oloc, args):
        from . import models
        return models.call(self, st, fr, e, q, oloc, args)

    def e_memfn(self, st, fr, e):
        return mk("fnref", e["q"], e.get("f"))

    def e_stmtexpr(self, st, fr, e):
        self.stmt(st, fr, e["body"])
        return mk("void")


def injective(idx, iv):
    """different rounds give different indices"""
    if idx.op in ("part", "ij", "vec"):
        return any(isinstance(x, Term) and injective(x, iv) for x in idx.args)
    if idx is iv:
        return True
    if idx.op == "poly":
        m = ((iv, 1),)
        d = poly_of(idx)
        return m in d and iv not in subterms(sub(idx, scale(iv, d[m])))
    return False


def depth_of(loopd):
    return loopd.args[-1]
