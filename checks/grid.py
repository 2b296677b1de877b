"""Name-free handling of the grid classes: an arbitrary valid object is what the constructor leaves behind, plus arbitrary contents."""
from engine import interp as I
from engine.eigen import comp
from engine.terms import *

THIS = mk("var", "this")


def T(f):
    return [p["t"].replace("const ", "").replace("&", "").strip() for p in f["params"]]


def short(t):
    for k, v in (("Eigen::Transform<", "Isometry3d"), ("Eigen::Matrix<double, 3,", "Vector3d"), ("Eigen::Matrix<double, 4,", "Vector4d"), ("GRID_INDEX", "GRID_INDEX"),
                 ("std::vector", "vector")):
        if k in t:
            return v + ("&&" if t.endswith("&&") else "")
    return t.replace("const ", "").replace(" &&", "&&").replace(" &", "").replace("long", "int64")


def sig(f):
    return "%s(%s)" % (f["q"].split("::")[-1], ",".join(short(p["t"]) for p in f["params"]))


class Obj:
    def __init__(self, ctx, prog, cls):
        self.ctx, self.prog, self.cls = ctx, prog, cls
        self.fns = [f for f in prog.funcs if f["q"].startswith(cls + "::") and f.get("rec") == cls]
        self.pub = [f for f in self.fns if f.get("acc") == 0 and not f.get("mstatic") and f.get("kind") in ("method", "ctor") and "operator" not in f["n"]]

    def named(self, n):
        return [f for f in self.pub if f["n"] == n]

    def go(self, f, obj=None, args=None, facts=(), maxdepth=14):
        st = I.State()
        if obj is not None:
            st.store[THIS] = obj
        it = I.Interp(self.prog, maxdepth=maxdepth)
        it.run(f, args=args, facts=facts, st=st)
        self.ctx.analysed(f)
        it.dead = it.state.dead
        if isinstance(it.result, Term) and isbool(it.result) and not isc(it.result):
            it.result = it.simp(I.State({}, list(facts)), it.result)
        it.post = it.state.store.get(THIS)
        return it


def exits(it):
    """events that end the outermost call"""
    return [e for e in it.events if e.kind in ("throw", "noret")]


def feasible(e, lemmas=()):
    fs = list(e.facts)
    # unit propagation of the known facts through disjunctions happens inside entails
    return not entails(fs + list(lemmas), FALSE) and not contradiction(fs + list(lemmas))


def contradiction(fs):
    S = set()
    for f in fs:
        S.update(conj(f))
    for f in list(S):
        if f.op == "or":
            if all(entails(S - {f}, lnot(d)) or lnot(d) in S for d in f.args):
                return True
        elif f.op in ("lt", "le", "lei", "eq"):
            if entails(S - {f}, lnot(f)):
                return True
    return False


def inb(ix, N):
    return [le(ZERO, i, True) for i in ix] + [lt(i, n, True) for i, n in zip(ix, N)]


def outb(ix, N):
    return [lt(i, ZERO, True) for i in ix] + [le(n, i, True) for i, n in zip(ix, N)]


def radix(idx, ix, N):
    """the axis order (most significant first) for which idx is the mixed-radix number of ix, or None"""
    import itertools
    for p in itertools.permutations(range(3)):
        if idx is add(mul(ix[p[0]], mul(N[p[1]], N[p[2]])), mul(ix[p[1]], N[p[2]]), ix[p[2]]):
            return p
    return None


def unrolled(t, facts, it):
    """n pushes of one loop-invariant value are n copies"""
    if t.op != "seq":
        return t
    out = []
    for p in t.args:
        if p[0] == "loop" and p[1].args[0] is not None and isinstance(p[1].args[0], Term) and p[1].args[2] is ONE and len(p[2]) == 1 and p[2][0][0] == "item":
            lo, hi = p[1].args[0], p[1].args[1]
            iv = it.loopinfo.get(p[1], {}).get("iv")
            if iv is not None and not contains(p[2][0][1], iv) and entails(facts, le(lo, hi)):
                out.append(("rep", sub(hi, lo), p[2][0][1]))
                continue
        out.append(p)
    return seq(out)


def pr(v):
    """fields of a pair value"""
    return fld(v, "first"), fld(v, "second")


def unabs(t, xs):
    """|x| is x for a positive x"""
    return subst(t, {tabs(x): x for x in xs})


def lemmas(ix, N, n):
    """0 <= mixed radix number of an in-range index < product, for any axis order"""
    import itertools
    out = []
    for p in itertools.permutations(range(3)):
        r = add(mul(ix[p[0]], mul(N[p[1]], N[p[2]])), mul(ix[p[1]], N[p[2]]), ix[p[2]])
        out += [le(ZERO, r, True), lt(r, n, True), lt(r, mul(N[0], mul(N[1], N[2])), True)]
    return out


class Grid(Obj):
    """an arbitrary valid fixed grid: symbols O (origin) C (cells) N (counts) D (contents) d (default) oob"""

    def __init__(self, ctx, prog):
        Obj.__init__(self, ctx, prog, "VoxelGrid::VoxelGrid")
        self.O, self.d, self.oob, self.D = sym("O"), sym("default"), sym("oob"), sym("D")
        self.C = [sym("cell" + a) for a in "xyz"]
        self.N = [sym("n" + a) for a in "xyz"]
        self.total = mul(self.N[0], mul(self.N[1], self.N[2]))
        self.pos = [lt(ZERO, c) for c in self.C] + [le(ONE, n, True) for n in self.N]
        self.base = self.pos + [eq(size(self.D), self.total), le(ONE, self.total, True)]
        ini = [f for f in self.named("Initialize") if [short(p["t"]) for p in f["params"]] == ["Isometry3d"] + ["double"] * 3 + ["int64"] * 3 + ["float"] * 2]
        ctx.need(len(ini) == 1, "Initialize(origin, cell sizes, cell counts, default, out-of-bounds)")
        self.ini = ini[0]
        it = self.go(self.ini, mk("s", "old"), [self.O] + self.C + self.N + [self.d, self.oob], facts=self.pos)
        S0 = it.post
        r = ctx.need([x for x in prog.recq.get(self.cls, []) if "float" in x["t"]], "class VoxelGrid")[0]
        self.fields = [x["n"] for x in r["fields"]]
        self.S0 = self.view(unabs(S0, self.C))
        rep = [x["n"] for x in r["fields"] if x["t"].startswith("std::vector<")]
        ctx.need(len(rep) == 1, "the grid's contents")
        self.df = rep[0]
        self.S = dict(self.S0)
        self.S[self.df] = self.D
        self.ctx = ctx

    def view(self, obj):
        return {f: fld(obj, f) for f in self.fields}

    def obj(self, v=None):
        t = mk("s", "old")
        for f, x in (v or self.S).items():
            t = upd(t, f, x)
        return t

    def call(self, f, args=None, facts=(), v=None):
        it = self.go(f, self.obj(v), args, facts)
        it.view = self.view(it.post) if it.post is not None else None
        if it.view is not None:
            it.view[self.df] = unrolled(it.view[self.df], list(facts), it)
        return it

    def one(self, n, *ts):
        fs = [f for f in self.named(n) if [short(p["t"]) for p in f["params"]] == list(ts)]
        self.ctx.need(len(fs) == 1, "%s(%s)" % (n, ",".join(ts)))
        return fs[0]

    def index(self, f, args=None, facts=None):
        """index terms computed by a location-to-index function"""
        it = self.call(f, args, facts=self.base if facts is None else facts)
        return [fld(it.result, a) for a in "xyz"]

    def same(self, a, b):
        return [f for f in self.fields if a[f] is not b[f]]


def cases(ts, conds=(), depth=5):
    """the terms ts case by case, with no conditional left (at most depth conditions)"""
    c = None
    for t in ts:
        for s in subterms(t):
            if s.op == "ite":
                c = s.args[0]
                break
        if c is not None:
            break
    if c is None or depth == 0:
        yield list(ts), list(conds)
        return
    yield from cases([under(t, c) for t in ts], list(conds) + [c], depth - 1)
    yield from cases([under(t, lnot(c)) for t in ts], list(conds) + [lnot(c)], depth - 1)
