"""Hash-consed value terms in normal form: the abstract value domain of the analyses.

Numbers are exact rationals, sums and products are polynomials over atoms, comparisons are normalised to
`p < 0`, `p <= 0`, `p == 0`.  Two expressions that are equal as rational functions get the same term, however
they were written."""
from fractions import Fraction
import itertools

_tab = {}
_next = itertools.count()


class Term:
    __slots__ = ("op", "args", "id", "h")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.id = next(_next)
        self.h = hash((op, self.id))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term(op, args)
        _tab[k] = t
    return t


# ---------------------------------------------------------------- constants and symbols
def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return mk("c", Fraction(v))
    if isinstance(v, Fraction):
        return mk("c", v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("lit", str(v))
        return mk("c", Fraction(repr(v)) if "e" not in repr(v) else Fraction(v))
    raise TypeError(v)


def numstr(s):
    sl = s.lower()
    if "inf" in sl or "nan" in sl:
        return mk("lit", sl)
    try:
        f = float(s)
        # the shortest decimal that rounds to this double
        return mk("c", Fraction(repr(f)))
    except (ValueError, OverflowError):
        return mk("lit", s)


def lit(s):
    return mk("lit", s)


def sym(*name):
    return mk("s", *name)


ZERO = num(0)
ONE = num(1)
TRUE = ONE
FALSE = ZERO
NULL = mk("null")
UNDEF = mk("undef")


def isc(t):
    return t.op == "c"


def cval(t):
    return t.args[0] if t.op == "c" else None


# ---------------------------------------------------------------- polynomials
def poly_of(t):
    """term -> dict mono -> Fraction; mono = tuple of (atom, exp) sorted by id"""
    if t.op == "c":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def of_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0])))
    return mk("poly", *items)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in poly_of(t).items():
            d[m] = d.get(m, 0) + c
    return of_poly(d)


def scale(t, k):
    k = Fraction(k)
    return of_poly({m: c * k for m, c in poly_of(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mm(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    extra = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "fn" and a.args[0] == "sqrt" and (e >= 2):
            q, r = divmod(e, 2)
            extra.append((a.args[1], q))
            if r:
                out.append((a, r))
            continue
        out.append((a, e))
    return tuple(sorted(out, key=lambda x: x[0].id)), extra


def mul(a, b):
    pa, pb = poly_of(a), poly_of(b)
    if len(pa) * len(pb) > 4000:
        return mk("fn", "bigmul", *sorted((a, b)))
    d = {}
    tail = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, extra = _mm(m1, m2)
            if extra:
                t = of_poly({m: c1 * c2})
                for base, q in extra:
                    for _ in range(int(q)):
                        t = mul(t, base)
                tail.append(t)
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = of_poly(d)
    return add(r, *tail) if tail else r


def power(a, n):
    r = ONE
    for _ in range(abs(n)):
        r = mul(r, a)
    return r if n >= 0 else inv(r)


def inv(b):
    if b.op == "c":
        if b.args[0] == 0:
            return mk("fn", "inv", b)
        return num(1 / b.args[0])
    if b.op == "poly":
        if len(b.args) == 1:
            m, c = b.args[0]
            return of_poly({tuple((a, -e) for a, e in m): 1 / c})
        lead = b.args[-1][1]
        nb = scale(b, 1 / lead)
        return of_poly({((mk("fn", "inv", nb), 1),): 1 / lead})
    if b.op == "fn" and b.args[0] == "inv":
        return b.args[1]
    return of_poly({((b, -1),): Fraction(1)})


def div(a, b):
    if a is b and not isc(a):
        return ONE
    return mul(a, inv(b))


# ---------------------------------------------------------------- booleans and comparisons
def _norm_sign(p):
    """scale by a positive rational to a canonical representative"""
    d = poly_of(p)
    if not d:
        return p
    lead = p.args[-1][1] if p.op == "poly" else (p.args[0] if p.op == "c" else Fraction(1))
    return scale(p, 1 / abs(lead))


def _two(p, f):
    """a comparison of c0 + k*(two-valued atom) with zero, as a condition on the atom"""
    d = poly_of(p)
    if len(d) > 2 or len(d) == 2 and () not in d:
        return None
    for m, k in d.items():
        if m == ():
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        c0 = d.get((), Fraction(0))
        if a.op in BOOLOPS:
            x, y, c = f(c0 + k), f(c0), a
        elif a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            x, y, c = f(c0 + k * a.args[1].args[0]), f(c0 + k * a.args[2].args[0]), a.args[0]
        else:
            return None
        return (TRUE if x else FALSE) if x == y else (c if x else lnot(c))
    return None


def lt(a, b, isint=False):
    if isint:
        return le(add(a, ONE), b, True)
    p = sub(a, b)
    if isc(p):
        return num(p.args[0] < 0)
    t = _two(p, lambda v: v < 0)
    if t is not None:
        return t
    return mk("lt", _norm_sign(p))


def _intnorm(p):
    d = poly_of(p)
    from math import gcd
    dens = 1
    for c in d.values():
        dens = dens * c.denominator // gcd(dens, c.denominator)
    p = scale(p, dens)
    d = poly_of(p)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, int(abs(c)))
    if g > 1:
        c0 = d.get((), Fraction(0))
        rest = {m: c / g for m, c in d.items() if m != ()}
        # g*x + c0 <= 0  <=>  x + ceil(c0/g) <= 0
        import math
        rest[()] = Fraction(math.ceil(c0 / g))
        p = of_poly(rest)
    return p


def le(a, b, isint=False):
    p = sub(a, b)
    if isc(p):
        return num(p.args[0] <= 0)
    t = _two(p, lambda v: v <= 0)
    if t is not None:
        return t
    if isint:
        if p.op == "poly":
            for mon, k in p.args:
                if k in (1, -1) and len(mon) == 1 and mon[0][1] == 1 and mon[0][0].op == "fn" and mon[0][0].args[0] == ("min" if k == 1 else "max"):
                    M = mon[0][0]
                    rest = sub(p, scale(M, k))
                    if any(isc(x) and x.args[0] <= 0 for x in (add(rest, scale(m, k)) for m in M.args[1:])):
                        return TRUE
        return mk("lei", _intnorm(p))
    return mk("le", _norm_sign(p))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "lit" and b.op == "lit":
        return FALSE
    if a.op in ("str", "lit", "null") and b.op in ("str", "lit", "null"):
        return num(a is b)
    for x, y in ((a, b), (b, a)):
        if x.op in BOOLOPS and y.op == "c":
            return x if y.args[0] == 1 else (lnot(x) if y.args[0] == 0 else FALSE)
    p = sub(a, b)
    if isc(p):
        return num(p.args[0] == 0)
    t = _two(p, lambda v: v == 0)
    if t is not None:
        return t
    lead = p.args[-1][1] if p.op == "poly" else Fraction(1)
    p = scale(p, 1 / lead)
    return mk("eq", p)


BOOLOPS = {"lt", "le", "lei", "eq", "not", "and", "or", "b"}


def isbool(t):
    return t.op in BOOLOPS or t is TRUE or t is FALSE


def tobool(t):
    if isbool(t):
        return t
    if isc(t):
        return num(t.args[0] != 0)
    if t.op == "ite":
        return ite(t.args[0], tobool(t.args[1]), tobool(t.args[2]))
    if t.op in ("addr", "lam", "str"):
        return TRUE
    if t.op == "null":
        return FALSE
    return mk("b", t)


_LNOT = {}


def lnot(t):
    r = _LNOT.get(t)
    if r is None:
        r = _LNOT[t] = _lnot(t)
    return r


def _lnot(t):
    t = tobool(t)
    if isc(t):
        return num(t.args[0] == 0)
    if t.op == "not":
        return t.args[0]
    if t.op == "lt":
        return mk("le", _norm_sign(neg(t.args[0])))
    if t.op == "le":
        return mk("lt", _norm_sign(neg(t.args[0])))
    if t.op == "lei":
        return mk("lei", _intnorm(add(neg(t.args[0]), ONE)))
    if t.op == "and":
        return lor(*[lnot(x) for x in t.args])
    if t.op == "or":
        return land(*[lnot(x) for x in t.args])
    if t.op == "ite":
        return ite(t.args[0], lnot(t.args[1]), lnot(t.args[2]))
    return mk("not", t)


def _nary(op, ts, unit, zero):
    out = {}
    for t in ts:
        t = tobool(t)
        if t is unit:
            continue
        if t is zero:
            return zero
        for x in (t.args if t.op == op else (t,)):
            out[x] = 1
    for x in out:
        if lnot(x) in out:
            return zero
    # absorption
    other = "or" if op == "and" else "and"
    for x in list(out):
        if x.op == other and any(y in out for y in x.args if y is not x):
            del out[x]
        elif x.op == other:
            keep = tuple(y for y in x.args if lnot(y) not in out)
            if len(keep) != len(x.args):
                del out[x]
                nx = (lor if other == "or" else land)(*keep)
                return _nary(op, list(out) + [nx], unit, zero)
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    return mk(op, *sorted(out, key=lambda x: x.id))


def land(*ts):
    return _nary("and", ts, TRUE, FALSE)


def lor(*ts):
    r = _nary("or", ts, FALSE, TRUE)
    # (a and b) or (a and not b) -> a ; common-factor simplification
    if r.op == "or":
        ds = [set(x.args) if x.op == "and" else {x} for x in r.args]
        for i in range(len(ds)):
            for j in range(i + 1, len(ds)):
                common = ds[i] & ds[j]
                a, b = ds[i] - common, ds[j] - common
                if len(a) == 1 and len(b) == 1 and lnot(next(iter(a))) is next(iter(b)):
                    rest = [x for k, x in enumerate(r.args) if k not in (i, j)]
                    return lor(land(*common), *rest)
                if len(a) == 1 and lnot(next(iter(a))) in b:
                    # A&a | A&~a&B  ->  A&a | A&B
                    nb = land(*(common | (b - {lnot(next(iter(a)))})))
                    rest = [x for k, x in enumerate(r.args) if k != j]
                    return lor(nb, *rest)
                if len(b) == 1 and lnot(next(iter(b))) in a:
                    na = land(*(common | (a - {lnot(next(iter(b)))})))
                    rest = [x for k, x in enumerate(r.args) if k != i]
                    return lor(na, *rest)
    return r


def conj(t):
    return t.args if t.op == "and" else (t,)


def ite(c, a, b):
    c = tobool(c)
    if isc(c):
        return a if c.args[0] != 0 else b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if a is c:
        a = TRUE
    nc = lnot(c)
    if (isbool(a) and isbool(b)) and (a.op in BOOLOPS or b.op in BOOLOPS):
        return lor(land(c, a), land(nc, b))
    if c.op == "or" or (nc.id < c.id and c.op not in ("and",) and nc.op != "or") or (c.op == "not"):
        c, nc, a, b = nc, c, b, a
    a = under(a, c)
    b = under(b, nc)
    if a is b:
        return a
    # min / max
    if c.op in ("lt", "le", "lei"):
        p = c.args[0]
        d = sub(a, b)
        if p.op != "c" and d.op != "c":
            dn = _norm_sign(d)
            if dn is p or (c.op == "lei" and dn is _norm_sign(sub(p, ONE))):
                return tmin(a, b)
            if _norm_sign(neg(d)) is p or (c.op == "lei" and _norm_sign(neg(d)) is _norm_sign(sub(p, ONE))):
                return tmax(a, b)
    if a.op == "ite" and a.args[2] is b:
        return ite(land(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(land(c, lnot(a.args[0])), a.args[2], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(lor(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(lor(c, lnot(b.args[0])), a, b.args[1])
    if a.op == "rec" and b.op == "rec" and [x[0] for x in a.args] == [x[0] for x in b.args]:
        return mk("rec", *[(k, ite(c, x, y)) for (k, x), (_, y) in zip(a.args, b.args)])
    if a.op == "vec" and b.op == "vec" and len(a.args) == len(b.args):
        return mk("vec", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    return mk("ite", c, a, b)


def under(t, c):
    """simplify the ites directly inside t knowing c"""
    if t.op == "ite":
        known = set(conj(c))
        known.add(c)
        c2 = t.args[0]
        if c2 in known or all(x in known for x in conj(c2)):
            return under(t.args[1], c)
        n2 = lnot(c2)
        if n2 in known or all(x in known for x in conj(n2)):
            return under(t.args[2], c)
    return t


def _mset(name, a, b):
    xs = {}
    for t in (a, b):
        for x in (t.args[1:] if t.op == "fn" and t.args[0] == name else (t,)):
            xs[x] = 1
    return list(xs)


def _mm_(name, a, b):
    xs = _mset(name, a, b)
    cs = [x for x in xs if isc(x)]
    if len(cs) > 1:
        k = (min if name == "min" else max)(x.args[0] for x in cs)
        xs = [x for x in xs if not isc(x)] + [num(k)]
    # constant differences
    out = []
    for x in xs:
        drop = False
        for y in xs:
            if y is x:
                continue
            d = sub(x, y)
            if isc(d) and ((name == "min" and d.args[0] > 0) or (name == "max" and d.args[0] < 0)):
                drop = True
        if not drop:
            out.append(x)
    if len(out) == 1:
        return out[0]
    return mk("fn", name, *sorted(out))


def tmin(a, b):
    return _mm_("min", a, b)


def tmax(a, b):
    return _mm_("max", a, b)


def tabs(a):
    return tmax(a, neg(a))


def haskey(m, k):
    if m.op == "astore":
        if m.args[1] is k:
            return TRUE
        return lor(eq(m.args[1], k), haskey(m.args[0], k))
    if m.op == "new" or (m.op == "seq" and not m.args):
        return FALSE
    if m.op == "ite":
        return ite(m.args[0], haskey(m.args[1], k), haskey(m.args[2], k))
    if m.op == "fn" and m.args[0] == "erased" and len(m.args) == 3:
        if m.args[2] is k:
            return FALSE
        return land(lnot(eq(m.args[2], k)), haskey(m.args[1], k))
    return mk("b", mk("fn", "haskey", m, k))


def fn(name, *args):
    if name == "haskey":
        return haskey(*args)
    if name == "size":
        return size(*args)
    if name in ("rows", "cols") and len(args) == 1 and args[0].op == "fn" and args[0].args[0] in ("zeros", "ones") and len(args[0].args) == 3:
        return args[0].args[1 if name == "rows" else 2]
    if name in ("min", "std::min") and len(args) == 2:
        return tmin(*args)
    if name in ("max", "std::max") and len(args) == 2:
        return tmax(*args)
    if name == "abs":
        return tabs(args[0])
    if name == "sqrt" and isc(args[0]) and args[0].args[0] >= 0:
        import math
        n, d = args[0].args[0].numerator, args[0].args[0].denominator
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return num(Fraction(math.isqrt(n), math.isqrt(d)))
    if name == "pow" and isc(args[1]) and args[1].args[0].denominator == 1 and abs(args[1].args[0]) <= 12:
        return power(args[0], int(args[1].args[0]))
    if name in ("sin", "tan", "asin", "atan") and args[0] is ZERO:
        return ZERO
    if name == "cos" and args[0] is ZERO:
        return ONE
    if name in ("sin", "cos"):
        # parity
        p = args[0]
        if p.op == "poly" and p.args[0][1] < 0:
            q = fn(name, neg(p))
            return neg(q) if name == "sin" else q
    if name == "bswap" and args[1].op == "fn" and args[1].args[0] == "bswap" and args[1].args[1] == args[0]:
        return args[1].args[2]
    if name in ("idiv", "imod") and isc(args[1]) and args[1].args[0] != 0:
        k = args[1].args[0]
        if isc(args[0]) and args[0].args[0] >= 0 and k > 0:
            return num(args[0].args[0] // k) if name == "idiv" else num(args[0].args[0] % k)
        d = poly_of(args[0])
        if all((c / k).denominator == 1 for c in d.values()) and all(e > 0 for m in d for _, e in m):
            return scale(args[0], 1 / k) if name == "idiv" else ZERO
    if name == "floor" and isc(args[0]):
        import math
        return num(math.floor(args[0].args[0]))
    if name == "trunc0" and isc(args[0]):
        return num(int(args[0].args[0]))
    return mk("fn", name, *args)


# ---------------------------------------------------------------- records and arrays
def rec(fields):
    return mk("rec", *sorted(fields.items(), key=lambda kv: kv[0]))


def fld(t, n):
    if t.op == "rec":
        for k, v in t.args:
            if k == n:
                return v
        return mk("fld", t, n)
    if t.op == "upd":
        for k, v in t.args[1:]:
            if k == n:
                return v
        return fld(t.args[0], n)
    if t.op == "ite":
        return ite(t.args[0], fld(t.args[1], n), fld(t.args[2], n))
    return mk("fld", t, n)


def upd(t, n, v):
    if t.op == "rec":
        d = dict(t.args)
        d[n] = v
        return rec(d)
    if t.op == "upd":
        base, d = t.args[0], dict(t.args[1:])
    else:
        base, d = t, {}
    d[n] = v
    if fld(base, n) is v:
        del d[n]
    if not d:
        return base
    return mk("upd", base, *sorted(d.items(), key=lambda kv: kv[0]))


def sel(a, i):
    if a.op == "astore":
        b, j, v = a.args
        d = sub(i, j)
        if d is ZERO:
            return v
        if isc(d):
            return sel(b, i)
        return mk("sel", a, i)
    if a.op == "vec" and isc(i):
        k = int(i.args[0])
        if 0 <= k < len(a.args):
            return a.args[k]
    if a.op == "seq":
        # leading items
        if isc(i):
            k = int(i.args[0])
            for p in a.args:
                if p[0] != "item":
                    break
                if k == 0:
                    return p[1]
                k -= 1
        if len(a.args) == 1 and a.args[0][0] == "rep":
            return a.args[0][2]
        if len(a.args) == 1 and a.args[0][0] == "all":
            return sel(a.args[0][1], i)
        if len(a.args) == 1 and a.args[0][0] == "loop":
            # one element per round: the element of round i
            L, inner = a.args[0][1], a.args[0][2]
            if L.op == "loop" and L.args[0] is ZERO and L.args[2] is ONE and len(inner) == 1 and inner[0][0] == "item":
                e = inner[0][1]
                if not any(t.op == "s" and t.args[0] == "H" for t in subterms(e)):
                    return subst(e, {mk("s", "iv", L.args[3], *L.args[:3]): i})
        if a.args and a.args[0][0] == "all" and all(p[0] in ("all", "item") for p in a.args):
            pos = ZERO
            for p in a.args:
                if p[0] == "item" and sub(i, pos) is ZERO:
                    return p[1]
                pos = add(pos, part_size(p))
    if a.op == "ite":
        return ite(a.args[0], sel(a.args[1], i), sel(a.args[2], i))
    if a.op == "mapped":
        base, iv, lo, hi, idx, v = a.args
        if idx is iv and lo is ZERO and hi is size(base):
            return subst(v, {iv: i})
        st = iv.args[4] if iv.op == "s" and iv.args[0] == "iv" and len(iv.args) > 4 else None
        if st is not None and isc(st) and abs(st.args[0]) == 1 and not isc(idx):
            k = poly_of(idx).get(((iv, 1),))
            c = sub(idx, scale(iv, k)) if k in (1, -1) else None
            if c is not None and iv not in subterms(c):
                a0, a1 = add(c, scale(lo, k)), add(c, scale(sub(hi, st), k))  # first and last index written
                if k * st.args[0] < 0:
                    a0, a1 = a1, a0
                if a0 is ZERO and add(a1, ONE) is size(base):
                    return subst(v, {iv: scale(sub(i, c), k)})
        return mk("sel", a, i)
    return mk("sel", a, i)


def astore(a, i, v):
    if sel(a, i) is v:
        return a
    if a.op == "vec" and isc(i) and 0 <= int(i.args[0]) < len(a.args):
        l = list(a.args)
        l[int(i.args[0])] = v
        return mk("vec", *l)
    if a.op == "seq" and isc(i) and all(p[0] == "item" for p in a.args) and 0 <= int(i.args[0]) < len(a.args):
        l = list(a.args)
        l[int(i.args[0])] = ("item", v)
        return seq(l)
    if a.op == "astore":
        d = sub(a.args[1], i)
        if d is ZERO:
            return astore(a.args[0], i, v)
        if isc(d) and a.args[1].id > i.id:
            # commute to a canonical order
            return mk("astore", astore(a.args[0], i, v), a.args[1], a.args[2])
    return mk("astore", a, i, v)


def seq(parts):
    out = []
    for p in parts:
        if p[0] == "all" and isinstance(p[1], Term) and p[1].op == "seq":
            out.extend(p[1].args)
        elif p[0] == "rep" and p[1] is ZERO:
            continue
        else:
            out.append(tuple(p))
    return mk("seq", *out)


EMPTY = mk("seq")


def parts_of(t):
    if t.op == "seq":
        return list(t.args)
    return [("all", t)]


SIZES = {}  # sizes of values a loop carries and never resizes (set while the loop is run)


def size(t):
    if t in SIZES:
        return SIZES[t]
    if t.op == "seq":
        tot = ZERO
        for p in t.args:
            tot = add(tot, part_size(p))
        return tot
    if t.op == "vec":
        return num(len(t.args))
    if t.op == "astore":
        return size(t.args[0])
    if t.op == "mapped":
        return size(t.args[0])
    if t.op == "ite":
        return ite(t.args[0], size(t.args[1]), size(t.args[2]))
    if t.op == "str":
        return num(len(t.args[0]))
    if t.op == "fn" and t.args[0] == "sorted":
        return size(t.args[1])
    if t.op == "fn" and t.args[0] in ("zeros", "ones") and len(t.args) == 2:
        return t.args[1]
    if t.op == "upd" and all(isinstance(k, str) and k.startswith(("<block", "<head", "<tail", "<segment")) for k, _ in t.args[1:]):
        return size(t.args[0])
    if t.op == "fold" and t.args[3].op == "astore":
        x = t.args[3]
        while x.op == "astore":
            x = x.args[0]
        if x is t.args[2]:
            return size(t.args[1])
    return mk("fn", "size", t)


def part_size(p):
    k = p[0]
    if k == "item":
        return ONE
    if k == "all":
        return size(p[1])
    if k == "rep":
        return p[1]
    if k == "bytes":
        return p[1]
    if k == "enc":
        return mk("fn", "encsize", p[1], p[2])
    if k == "loop":
        n = ZERO
        for q in p[2]:
            n = add(n, part_size(q))
        if isc(n):
            L = p[1]
            if L.op == "loop" and L.args[0] is ZERO and L.args[2] is ONE and L.args[1].op == "fn" and L.args[1].args[0] == "size":
                return mul(n, L.args[1])
            return mul(n, mk("fn", "count", p[1]))
        return mk("fn", "sum", p[1], n)
    if k == "alt":
        return ite(p[1], size(seq(p[2])), size(seq(p[3])))
    return mk("fn", "psize", *p)


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(_subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("c", "lit", "str", "null", "undef"):
        return t
    a = t.args
    op = t.op
    if op == "s":
        na = tuple(_subst(x, m, memo) for x in a)
        r = t if na == a else mk("s", *na)
    elif op == "poly":
        r = ZERO
        for mono, c in a:
            x = num(c)
            for atom, e in mono:
                b = _subst(atom, m, memo)
                x = mul(x, power(b, e))
            r = add(r, x)
    else:
        na = tuple(_subst(x, m, memo) for x in a)
        if na == a:
            r = t
        else:
            r = rebuild(op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "fn":
        return fn(*a)
    if op == "ite":
        return ite(*a)
    if op == "lt":
        return lt(a[0], ZERO)
    if op == "le":
        return le(a[0], ZERO)
    if op == "lei":
        return le(a[0], ZERO, True)
    if op == "eq":
        return eq(a[0], ZERO)
    if op == "not":
        return lnot(a[0])
    if op == "and":
        return land(*a)
    if op == "or":
        return lor(*a)
    if op == "b":
        return tobool(a[0])
    if op == "fld":
        return fld(*a)
    if op == "upd":
        r = a[0]
        for k, v in a[1:]:
            r = upd(r, k, v)
        return r
    if op == "rec":
        return rec(dict(a))
    if op == "sel":
        return sel(*a)
    if op == "astore":
        return astore(*a)
    if op == "seq":
        return seq(a)
    return mk(op, *a)


def subterms(t, seen=None):
    """all Terms inside t (t included)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        stack.extend(x.args)
    return seen


def contains(t, x):
    return x in subterms(t)


# ---------------------------------------------------------------- linear entailment
def ineq(t):
    """cond term -> list of (poly, strict) meaning poly <= 0 (or < 0)"""
    if t.op == "lt":
        return [(t.args[0], True)]
    if t.op in ("le", "lei"):
        return [(t.args[0], False)]
    if t.op == "eq":
        return [(t.args[0], False), (neg(t.args[0]), False)]
    if t.op == "and":
        return [x for y in t.args for x in ineq(y)]
    return []


def nonneg_atoms(p):
    """facts that hold by construction: sizes, counts, absolute values are >= 0; min/max bounds"""
    out = []
    for t in subterms(p):
        if t.op == "fn":
            n = t.args[0]
            if n in ("size", "count", "psize", "sqrt", "norm", "sqnorm", "count_if"):
                out.append((neg(t), False))
            elif n == "min":
                for x in t.args[1:]:
                    out.append((sub(t, x), False))
            elif n == "max":
                for x in t.args[1:]:
                    out.append((sub(x, t), False))
            elif n == "floor":
                out.append((sub(t, t.args[1]), False))
                out.append((sub(sub(t.args[1], t), ONE), True))
    return out


def entails(facts, goal, depth=4):
    """do the facts imply goal?  Sound, incomplete: syntactic membership, boolean structure and a bounded
    elimination over linear inequalities."""
    goal = tobool(goal)
    if goal is TRUE:
        return True
    fs = set()
    for f in facts:
        for x in conj(f):
            fs.add(x)
    if FALSE in fs:
        return True
    # split on disjunctive facts a little
    return _ent(fs, goal, depth)


def _ent(fs, goal, depth, split=2):
    if goal is TRUE or goal in fs:
        return True
    if goal.op == "and":
        return all(_ent(fs, g, depth, split) for g in goal.args)
    if goal.op == "or":
        for i, g in enumerate(goal.args):
            others = [lnot(h) for j, h in enumerate(goal.args) if j != i]
            fs2 = set(fs)
            for h in others:
                fs2.update(conj(h))
            if _ent(fs2, g, depth, split):
                return True
        return False
    if goal.op == "eq":
        p = goal.args[0]
        if _ent(fs, le(p, ZERO), depth, split) and _ent(fs, le(neg(p), ZERO), depth, split):
            return True
    if goal.op == "not" and goal.args[0].op == "eq":
        p = goal.args[0].args[0]
        if _ent(fs, lt(p, ZERO), depth, 0) or _ent(fs, lt(neg(p), ZERO), depth, 0):
            return True
    if goal.op in ("lt", "le", "lei"):
        ineqs = []
        for f in fs:
            ineqs.extend(ineq(f))
        p, strict = ineq(goal)[0]
        for f, _ in list(ineqs) + [(p, 0)]:
            ineqs.extend(nonneg_atoms(f))
        ineqs = list(dict.fromkeys(ineqs))
        if _lin(ineqs, p, strict, depth):
            return True
    if split:
        for f in list(fs):
            if f.op == "or":
                if all(_ent((fs - {f}) | set(conj(d)), goal, depth, split - 1) for d in f.args):
                    return True
            if f.op == "not" and f.args[0].op == "eq" and goal.op in ("lt", "le", "lei"):
                p = f.args[0].args[0]
                # x != 0 and x <= 0  =>  x < 0 (integers: x <= -1)
                for q in (p, neg(p)):
                    if _ent(fs - {f}, le(q, ZERO), 2, 0):
                        extra = lt(q, ZERO, goal.op == "lei")
                        return _ent((fs - {f}) | {extra}, goal, depth, split - 1)
    # contradiction
    return False


def _lin(ineqs, p, strict, depth):
    # prove p <= 0 (or < 0) as a positive combination: p = sum k_i q_i + const
    seen = set()

    def go(p, got_strict, d):
        if isc(p):
            return p.args[0] < 0 or (p.args[0] == 0 and (got_strict or not strict))
        if d == 0 or (p, got_strict) in seen:
            return False
        seen.add((p, got_strict))
        dp = poly_of(p)
        for q, s in ineqs:
            dq = poly_of(q)
            # eliminate one monomial of p with the same sign in q
            for m, c in dp.items():
                if m == ():
                    continue
                cq = dq.get(m)
                if cq is None or (cq > 0) != (c > 0):
                    continue
                k = c / cq
                if go(sub(p, scale(q, k)), got_strict or s, d - 1):
                    return True
        return False

    return go(p, False, depth)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        if isinstance(t, Fraction):
            return str(t) if t.denominator == 1 else "%g" % float(t)
        return str(t)
    if d > 14:
        return "..."
    o, a = t.op, t.args
    if o == "vec" and len(a) > 24:
        return "table%d" % len(a)
    if o == "c":
        return show(a[0])
    if o in ("lit", "str"):
        return repr(a[0])
    if o == "s":
        return "$" + ".".join(show(x, d + 1) for x in a)
    if o == "poly":
        parts = []
        for m, c in a:
            ms = "*".join(show(x, d + 1) + ("^%s" % e if e != 1 else "") for x, e in m)
            if not ms:
                parts.append(show(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append("-" + ms)
            else:
                parts.append(show(c) + "*" + ms)
        return "(" + " + ".join(parts) + ")"
    if o == "fn":
        return "%s(%s)" % (a[0], ", ".join(show(x, d + 1) for x in a[1:]))
    if o in ("lt", "le", "lei", "eq"):
        return "[%s %s 0]" % (show(a[0], d + 1), {"lt": "<", "le": "<=", "lei": "<=i", "eq": "=="}[o])
    if o == "not":
        return "!" + show(a[0], d + 1)
    if o == "b":
        return "?" + show(a[0], d + 1)
    if o == "fld":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if o == "sel":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))
