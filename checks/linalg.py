"""components of small vectors, matrices, rotations and poses: terms of the interpreter as exact rational functions of
their numbers, compared after the identities sqrt(x)^2 = x, sin^2 + cos^2 = 1 and |q| = 1"""
from fractions import Fraction
from engine.terms import *
from .logic import *
import re


class Unknown(Exception):
    pass


# ---- polynomials {((atom, exponent), ...): coefficient} and their quotients
def pmul(p, q):
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            d = dict(m)
            for x, e in n:
                d[x] = d.get(x, 0) + e
            k = tuple(sorted(d.items(), key=lambda z: z[0].id))
            r[k] = r.get(k, 0) + a * b
            if r[k] == 0:
                del r[k]
    if len(r) > 60000:
        raise Unknown("expression too large")
    return r


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


P1 = {(): Fraction(1)}


class R:
    """a quotient of polynomials"""
    __slots__ = ("n", "d")

    def __init__(s, n, d=None):
        s.n, s.d = n, d or P1

    def __add__(a, b):
        if a.d == b.d:
            return R(padd(a.n, b.n), a.d)
        return R(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))

    def __sub__(a, b):
        return a + b.neg()

    def neg(a):
        return R({m: -c for m, c in a.n.items()}, a.d)

    def __mul__(a, b):
        if a.n == b.d:
            return R(b.n, a.d)
        if b.n == a.d:
            return R(a.n, b.d)
        return R(pmul(a.n, b.n), pmul(a.d, b.d))

    def inv(a):
        if not a.n:
            raise Unknown("division by zero")
        return R(a.d, a.n)

    def pw(a, e):
        r = R(P1)
        for _ in range(abs(int(e))):
            r = r * a
        return r if e >= 0 else r.inv()


def const(k):
    k = Fraction(k)
    return R({(): k} if k else {})


Z, ONE_ = const(0), const(1)


def unrolled(t, most=16):
    """a loop with constant bounds, written out"""
    if t.op == "mapped":
        base, iv, lo, hi, ix, val = t.args
        step = iv.args[4] if iv.op == "s" and iv.args[0] == "iv" and len(iv.args) > 4 else None
    else:
        L, base, H, val = t.args
        lo, hi, step = L.args[:3]
        iv = next((s for s in subterms(val) if s.op == "s" and s.args[0] == "iv" and s.args[2:] == L.args[:3]), mk("void"))
    if not (isc(lo) and isc(hi) and step is not None and isc(step)) or step.args[0] == 0:
        return None
    k, n = lo.args[0], 0
    while k < hi.args[0] if step.args[0] > 0 else k > hi.args[0]:
        x = {iv: num(k)}
        base = astore(base, subst(ix, x), subst(val, x)) if t.op == "mapped" else subst(val, {iv: num(k), H: base})
        k, n = k + step.args[0], n + 1
        if n > most:
            return None
    return base


class Lin:
    """kinds: what the leaves are: ('m', rows, columns), 'q' quaternion, 'T' pose, 'v' vector of any length, 's' number"""

    def __init__(self, kinds, elems=None, unit=()):
        self.kinds, self.elems = kinds, elems or {}
        self.rel = {}  # atom -> (power, polynomial it equals)
        self.order = []
        self.fns = {}  # name -> [(arg R, atom)]
        self.unit = set(unit)
        self.roots = []
        self.memo = {}

    # ---- atoms
    def at(self, t):
        return R({((t, 1),): Fraction(1)})

    def relate(self, a, k, p):
        if a not in self.rel:
            self.rel[a] = (k, p)
            self.order.append(a)

    def reduce(self, p):
        """p with every power of a related atom lowered"""
        for a in reversed(self.order):
            k, q = self.rel[a]
            while True:
                hit = False
                r = {}
                for m, c in p.items():
                    e = dict(m).get(a, 0)
                    if e >= k:
                        hit = True
                        d = tuple((x, y) for x, y in m if x is not a)
                        w = {d: c}
                        b, rest = divmod(e, k)
                        for _ in range(int(b)):
                            w = pmul(w, q)
                        if rest:
                            w = pmul(w, {((a, rest),): Fraction(1)})
                        r = padd(r, w)
                    else:
                        r = padd(r, {m: c})
                p = r
                if not hit:
                    break
        return p

    def zero(self, x):
        return not self.reduce(self.reduce(x.n))

    def eq(self, a, b):
        return self.zero(a - b)

    def fnatom(self, name, *args):
        """one atom for one function of equal arguments"""
        for xs, a in self.fns.get(name, ()):
            if len(xs) == len(args) and all(self.eq(x, y) for x, y in zip(xs, args)):
                return a
        a = mk("fn", name, mk("lit", len(self.fns.get(name, ())))) if False else mk("s", "fn:" + name, len(self.fns.get(name, ())))
        self.fns.setdefault(name, []).append((args, a))
        return a

    def lowest(self, x):
        """x with the powers common to all terms of its numerator and denominator cancelled"""
        n, d = self.reduce(x.n), self.reduce(x.d)
        if not n:
            return Z
        common = None
        for m in list(n) + list(d):
            e = dict(m)
            common = e if common is None else {a: min(k, e.get(a, 0)) for a, k in common.items() if min(k, e.get(a, 0)) > 0}
            if not common:
                break
        if common:
            cut = lambda p: {tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0)): c for m, c in p.items()}
            n, d = cut(n), cut(d)
        if len(d) == 1 and () in d:
            n, d = {m: c / d[()] for m, c in n.items()}, P1
        return R(n, d)

    def sqrt(self, x):
        if not x.n:
            return Z
        for y, r in self.roots:
            if self.eq(x, y):
                return r
        y = self.lowest(x)
        if y.d == P1 and len(y.n) == 1 and () in y.n and y.n[()] in (0, 1):
            return const(y.n[()])
        if y.d == P1:
            a = self.fnatom("sqrt", y)
            self.relate(a, 2, y.n)
            r = self.at(a)
        else:
            # sqrt(n/d) = sqrt(n d)/|d|
            d = R(y.d)
            if not self.isroot(d):
                d = self.sqrt(d * d)
            r = self.sqrt(R(pmul(y.n, y.d))) * d.inv()
        self.roots.append((x, r))
        return r

    def trig(self, name, x):
        """sin and cos of x, with the sign of x pulled out"""
        if not x.n:
            return Z if name == "sin" else ONE_
        for xs, a in self.fns.get("acos", ()):
            if self.eq(x, self.at(a)):
                return xs[0] if name == "cos" else self.sqrt(ONE_ - xs[0] * xs[0])
        lead = x.n[min(x.n, key=lambda m: tuple((a.id, e) for a, e in m))]
        s = -1 if lead < 0 else 1
        y = x.neg() if s < 0 else x
        c, sn = self.fnatom("cos", y), self.fnatom("sin", y)
        self.relate(sn, 2, {(): Fraction(1), ((c, 2),): Fraction(-1)})
        r = self.at(c if name == "cos" else sn)
        return r.neg() if s < 0 and name == "sin" else r

    # ---- values
    def leaf(self, t, kind):
        if kind == "s":
            return ("S", self.at(t))
        if kind == "v":
            return ("V", {(t,): ONE_})
        if kind == "q":
            xs = [self.at(sel(t, num(i))) for i in range(4)]
            if t in self.unit or "all" in self.unit:
                w = sel(t, num(3))
                self.relate(w, 2, {(): Fraction(1), **{((sel(t, num(i)), 2),): Fraction(-1) for i in range(3)}})
            return ("Q", xs)
        if kind == "T":
            r, p = fld(t, "<rotation>"), fld(t, "<translation>")
            return ("T", [[self.at(sel(r, mk("ij", num(i), num(j)))) for j in range(3)] for i in range(3)], [self.at(sel(p, num(i))) for i in range(3)])
        if kind == "A":  # rotation about an axis
            return None
        _, r, c = kind
        return ("M", [[self.at(sel(t, num(i)) if c == 1 else sel(t, num(j)) if r == 1 else sel(t, mk("ij", num(i), num(j)))) for j in range(c)] for i in range(r)])

    def ev(self, t):
        if t not in self.memo:
            self.memo[t] = self._ev(t)
        return self.memo[t]

    def sc(self, t):
        v = self.ev(t)
        if v[0] == "M" and len(v[1]) == 1 and len(v[1][0]) == 1:
            return v[1][0][0]
        if v[0] != "S":
            raise Unknown("number expected: " + show(t)[:80])
        return v[1]

    def col(self, t):
        return self.vecof(self.ev(t))

    def vecof(self, v):
        if v[0] == "M" and len(v[1][0]) == 1:
            return [r[0] for r in v[1]]
        if v[0] == "M" and len(v[1]) == 1:
            return v[1][0]
        if v[0] == "Q":
            return v[1]
        if v[0] == "TR":
            return v[1]
        raise Unknown("vector expected")

    def kind(self, t):
        if t in self.kinds:
            return self.kinds[t]
        if t.op == "sel" and t.args[0] in self.elems:
            return self.elems[t.args[0]]
        return None

    def rot(self, q):
        """rotation matrix of a unit quaternion"""
        x, y, z, w = q
        two = const(2)
        m = lambda *ts: sum((t for t in ts[1:]), ts[0])
        return [[ONE_ - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y)],
                [two * (x * y + w * z), ONE_ - two * (x * x + z * z), two * (y * z - w * x)],
                [two * (x * z - w * y), two * (y * z + w * x), ONE_ - two * (x * x + y * y)]]

    def hom(self, v):
        """4 x 4 matrix of a pose"""
        return [v[1][i] + [v[2][i]] for i in range(3)] + [[Z, Z, Z, ONE_]]

    def _ev(self, t):
        k = self.kind(t)
        if k is not None:
            return self.leaf(t, k)
        if t.op == "c":
            return ("S", const(t.args[0]))
        if t.op == "poly":
            return self.poly(t)
        if t.op == "vec":
            n = len(t.args)
            parts = [self.ev(x) for x in t.args]
            xs = []
            for p in parts:
                xs.extend([p[1]] if p[0] == "S" else self.vecof(p))
            n = len(xs)
            w = {9: 3, 16: 4, 36: 6}.get(n, 1)
            return ("M", [xs[i:i + w] for i in range(0, n, w)])
        if t.op == "sel":
            return self.sel(t)
        if t.op == "fld":
            return self.fld(t)
        if t.op == "upd":
            return self.upd(t)
        if t.op == "astore":
            return self.store(t)
        if t.op in ("mapped", "fold"):
            r = unrolled(t)
            if r is not None:
                return self.ev(r)
        if t.op == "fold":
            from .numeric import sums
            r = sums(t)
            if r is not t and r.op != "fold":
                return self.ev(r)
        if t.op == "fn":
            r = self.fn(t)
            if r is not None:
                return r
        if t.op in ("ite", "fold", "lt", "le", "eq", "and", "or", "not"):
            raise Unknown(show(t)[:80])
        return ("S", self.at(t))

    def vadd(self, a, b):
        if a[0] == "0":
            return b
        if b[0] == "0":
            return a
        if a[0] == "I" and b[0] == "I":
            return ("I", a[1] + b[1])
        if a[0] == "I" or b[0] == "I":
            (i, m) = (a, b) if a[0] == "I" else (b, a)
            m = self.mat(m)
            return ("M", [[x + (i[1] if r == c else Z) for c, x in enumerate(row)] for r, row in enumerate(m)])
        if a[0] == "S" and b[0] == "S":
            return ("S", a[1] + b[1])
        if a[0] == "V" and b[0] == "V":
            r = dict(a[1])
            for m, c in b[1].items():
                r[m] = r[m] + c if m in r else c
            return ("V", r)
        if a[0] == "Q" and b[0] == "Q":
            return ("Q", [x + y for x, y in zip(a[1], b[1])])
        x, y = self.mat(a), self.mat(b)
        if len(x) != len(y) or len(x[0]) != len(y[0]):
            raise Unknown("sum of different shapes")
        return ("M", [[p + q for p, q in zip(r, s)] for r, s in zip(x, y)])

    def scale(self, v, k):
        if v[0] == "S":
            return ("S", v[1] * k)
        if v[0] == "0":
            return v
        if v[0] == "I":
            return ("I", v[1] * k)
        if v[0] == "V":
            return ("V", {m: c * k for m, c in v[1].items()})
        if v[0] == "Q":
            return ("Q", [x * k for x in v[1]])
        return ("M", [[x * k for x in r] for r in self.mat(v)])

    def mat(self, v):
        if v[0] in ("M", "P"):
            return v[1]
        if v[0] == "TR":
            return [[x] for x in v[1]]
        if v[0] == "T":
            return self.hom(v)
        if v[0] == "Q":
            return [[x] for x in v[1]]
        raise Unknown("matrix expected, not " + v[0])

    def poly(self, t):
        r = None
        for mon, k in t.args:
            m = None
            s = const(k)
            for x, e in mon:
                v = self.ev(x)
                if v[0] == "M" and len(v[1]) == 1 and len(v[1][0]) == 1 and (m is not None or e != 1):
                    v = ("S", v[1][0][0])
                if v[0] == "S":
                    s = s * v[1].pw(e)
                elif m is None and e == 1:
                    m = v
                else:
                    raise Unknown("product of two vectors " + show(t)[:60])
            y = ("S", s) if m is None else self.scale(m, s)
            r = y if r is None else self.vadd(r, y)
        return r

    def sel(self, t):
        a, i = t.args
        if i.op == "ij" and all(isc(x) for x in i.args):
            r, c = int(i.args[0].args[0]), int(i.args[1].args[0])
        elif isc(i):
            r, c = int(i.args[0]), None
        else:
            return ("S", self.at(t))
        v = self.ev(a)
        if v[0] == "S":
            return ("S", self.at(t))
        if v[0] == "0":
            return ("S", Z)
        if v[0] == "I":
            return ("S", v[1] if r == c else Z)
        if v[0] == "V":
            raise Unknown("element of a vector of any length")
        if c is None:
            if v[0] == "P":
                v = self.sized(v, r + 1, 1)
            x = self.vecof(v)
            if r >= len(x):
                raise Unknown("element %d of %d" % (r, len(x)))
            return ("S", x[r])
        m = self.mat(self.sized(v, r + 1, c + 1) if v[0] == "P" else v)
        if r >= len(m) or c >= len(m[0]):
            raise Unknown("element %d, %d" % (r, c))
        return ("S", m[r][c])

    LAB = re.compile(r"<block,(\d+),(\d+),(\d+),(\d+)>")

    def fld(self, t):
        a, n = t.args
        if not (isinstance(n, str) and n.startswith("<")):
            return ("S", self.at(t))
        v = self.ev(a)
        m = self.LAB.match(n)
        e = re.match(r"<(head|tail),(\d+)>", n)
        if e and v[0] == "M" and len(v[1][0]) == 1:
            k = int(e.group(2))
            if k > len(v[1]):
                raise Unknown("part outside of the vector")
            return ("M", v[1][:k] if e.group(1) == "head" else v[1][len(v[1]) - k:])
        if m:
            r, c, h, w = map(int, m.groups())
            if v[0] in ("0",):
                return ("M", [[Z] * w for _ in range(h)])
            if v[0] == "I":
                return ("M", [[v[1] if r + i == c + j else Z for j in range(w)] for i in range(h)])
            x = self.mat(self.sized(v, r + h, c + w) if v[0] == "P" else v)
            if r + h > len(x) or c + w > len(x[0]):
                raise Unknown("part outside of the matrix")
            return ("M", [row[c:c + w] for row in x[r:r + h]])
        if n in ("<rotation>", "<linear>", "<toRotationMatrix>", "<toDenseMatrix>"):
            if v[0] == "T":
                return ("M", v[1])
            if v[0] == "Q":
                return ("M", self.rot(v[1]))
            if v[0] == "M" and len(v[1]) == 4:
                return ("M", [r[:3] for r in v[1][:3]])
            if v[0] == "I":
                return v
        if n == "<translation>":
            if v[0] == "T":
                return ("M", [[x] for x in v[2]])
            if v[0] == "M" and len(v[1]) == 4:
                return ("M", [[r[3]] for r in v[1][:3]])
            if v[0] == "I":
                return ("M", [[Z]] * 3)
        if n == "<conjugate>" and v[0] == "Q":
            return ("Q", [x.neg() for x in v[1][:3]] + v[1][3:])
        if n == "<coeffs>" and v[0] == "Q":
            return ("M", [[x] for x in v[1]])
        if n == "<vec>" and v[0] == "Q":
            return ("M", [[x] for x in v[1][:3]])
        if n in ("<matrix>", "<affine>", "<eval>", "<derived>", "<array>"):
            return ("M", self.hom(v)) if v[0] == "T" else v
        m = re.match(r"<(col|row),(\d+)>", n)
        if m and v[0] in ("M", "T"):
            x, i = self.mat(v), int(m.group(2))
            return ("M", [[r[i]] for r in x]) if m.group(1) == "col" else ("M", [x[i]])
        raise Unknown("part " + n + " of " + show(a)[:60])

    def upd(self, t):
        base = t.args[0]
        if not all(isinstance(k, str) and k.startswith("<") for k, _ in t.args[1:]):
            return ("S", self.at(t))
        b = self.ev(base) if base.op != "uninit" else None
        if b is not None and b[0] in ("T",) or any(k in ("<translation>", "<linear>", "<rotation>") for k, _ in t.args[1:]):
            r, p = (b[1], b[2]) if b is not None and b[0] == "T" else (None, None)
            if b is not None and b[0] == "I":
                r, p = [[b[1] if i == j else Z for j in range(3)] for i in range(3)], [Z, Z, Z]
            for k, x in t.args[1:]:
                if k == "<translation>":
                    p = self.col(x)
                elif k in ("<linear>", "<rotation>"):
                    r = self.mat(self.sized(self.ev(x), 3, 3))
                elif k == "<matrix>":
                    m = self.mat(self.sized(self.ev(x), 4, 4))
                    r, p = [q[:3] for q in m[:3]], [q[3] for q in m[:3]]
                else:
                    raise Unknown("write to " + k)
            if r is None or p is None:
                raise Unknown("pose without a part")
            return ("T", r, p)
        parts = []
        for k, x in t.args[1:]:
            if k == "<matrix>":
                return self.ev(x)
            m = self.LAB.match(k)
            if not m:
                raise Unknown("write to " + k)
            r, c, h, w = map(int, m.groups())
            parts.append((r, c, h, w, self.ev(x)))
        H = max(r + h for r, c, h, w, _ in parts)
        W = max(c + w for r, c, h, w, _ in parts)
        if b is None or b[0] in ("0", "I"):
            if base.op == "uninit":
                d = re.search(r"(?:Matrix|Array)<[\w ]+, (\d+), (\d+)", show(base))
                H, W = (int(d.group(1)), int(d.group(2))) if d else (H, W)
            m = [[None if b is None else Z if b[0] == "0" or i != j else b[1] for j in range(W)] for i in range(H)]
        else:
            m = [list(r) for r in self.mat(b)]
        seen = set()
        for r, c, h, w, v in parts:
            x = self.mat(self.sized(v, h, w))
            if len(x) != h or len(x[0]) != w:
                raise Unknown("part of another shape")
            for i in range(h):
                for j in range(w):
                    if (r + i, c + j) in seen:
                        raise Unknown("overlapping parts")
                    seen.add((r + i, c + j))
                    if r + i >= len(m) or c + j >= len(m[0]):
                        raise Unknown("part outside of the matrix")
                    m[r + i][c + j] = x[i][j]
        if any(x is None for r in m for x in r):
            raise Unknown("part of the matrix is never set")
        return ("P", m, b) if b is not None and b[0] in ("0", "I") else ("M", m)

    def store(self, t):
        chain = []
        while t.op == "astore":
            chain.append((t.args[1], t.args[2]))
            t = t.args[0]
        d = re.search(r"(?:Matrix|Array)<[\w ]+, (\d+), (\d+)", show(t)) if t.op == "uninit" else None
        ix = [(int(i.args[0].args[0]), int(i.args[1].args[0])) if i.op == "ij" and all(isc(q) for q in i.args) else (int(i.args[0]), 0) if isc(i) else None for i, _ in chain]
        if None in ix:
            raise Unknown("element picked by a value")
        if t.op == "uninit" and "Eigen::Quaternion<" in show(t):
            if any(c or r > 3 for r, c in ix):
                raise Unknown("element of a quaternion")
            q = [None] * 4
            for (r, _), (_, x) in zip(reversed(ix), reversed(chain)):
                q[r] = self.sc(x)
            if None in q:
                raise Unknown("a number of the quaternion is never set")
            return ("Q", q)
        if d:
            H, W = int(d.group(1)), int(d.group(2))
            if H == 1 and W > 1:
                ix = [(c, r) for r, c in ix] if all(c == 0 for r, c in ix) else ix
            m = [[None] * W for _ in range(H)]
        elif t.op == "uninit":
            m = [[None] * (max(c for _, c in ix) + 1) for _ in range(max(r for r, _ in ix) + 1)]
        else:
            b = self.ev(t)
            if b[0] in ("0", "I"):
                H, W = max(r for r, _ in ix) + 1, max(c for _, c in ix) + 1
                if b[0] == "I":
                    H = W = max(H, W)
                m = [[b[1] if b[0] == "I" and i == j else Z for j in range(W)] for i in range(H)]
            else:
                m = [list(r) for r in self.mat(b)]
        for (r, c), (_, x) in zip(reversed(ix), reversed(chain)):
            if r >= len(m) or c >= len(m[0]):
                raise Unknown("element outside of the matrix")
            m[r][c] = self.sc(x)
        if any(x is None for r in m for x in r):
            raise Unknown("element never set")
        return ("P", m, b) if t.op != "uninit" and b[0] in ("0", "I") else ("M", m)

    def sized(self, v, h, w):
        if v[0] == "P":
            # a part of a zero or identity matrix whose shape the term does not tell
            m = [list(r) for r in v[1]]
            b = v[2]
            for r in range(max(h, len(m))):
                if r >= len(m):
                    m.append([])
                for c in range(len(m[r]), max(w, len(v[1][0]))):
                    m[r].append(b[1] if b[0] == "I" and r == c else Z)
            return ("M", m)
        if v[0] == "0":
            return ("M", [[Z] * w for _ in range(h)])
        if v[0] == "I":
            return ("M", [[v[1] if i == j else Z for j in range(w)] for i in range(h)])
        if v[0] == "Q" and (h, w) == (3, 3):
            return ("M", self.rot(v[1]))
        if v[0] == "T" and (h, w) == (4, 4):
            return ("M", self.hom(v))
        if v[0] == "S" and (h, w) == (1, 1):
            return ("M", [[v[1]]])
        return v

    def qmul(self, a, b):
        x, y, z, w = a
        p, q, r, s = b
        return [w * p + x * s + y * r - z * q, w * q - x * r + y * s + z * p, w * r + x * q - y * p + z * s, w * s - x * p - y * q - z * r]

    def mmul(self, a, b):
        if len(a[0]) != len(b):
            raise Unknown("product of different shapes")
        out = []
        for r in a:
            row = []
            for j in range(len(b[0])):
                s = Z
                for k in range(len(b)):
                    if r[k].n and b[k][j].n:
                        s = s + r[k] * b[k][j]
                row.append(s)
            out.append(row)
        return out

    def prod(self, a, b):
        if a[0] == "0" or b[0] == "0":
            return ("0",)
        if a[0] == "I":
            return self.scale(b, a[1]) if a[1] is not ONE_ else b
        if b[0] == "I":
            return self.scale(a, b[1]) if b[1] is not ONE_ else a
        if a[0] == "S":
            return self.scale(b, a[1])
        if b[0] == "S":
            return self.scale(a, b[1])
        if a[0] == "P":
            k = len(self.mat(b))
            a = self.sized(a, 4 if len(a[1]) > 3 or k == 4 else len(a[1]), k)
        if b[0] == "P":
            b = self.sized(b, len(self.mat(a)[0]), len(b[1][0]))
        pose = lambda v: ("T", [[ONE_ if i == j else Z for j in range(3)] for i in range(3)], v[1]) if v[0] == "TR" else ("T", self.rot(v[1]), [Z] * 3) if v[0] == "Q" else v
        if a[0] == "Q" and b[0] == "Q":
            return ("Q", self.qmul(a[1], b[1]))
        if a[0] == "Q" and b[0] == "M":
            return ("M", self.mmul(self.rot(a[1]), b[1]))
        if b[0] == "Q" and a[0] == "M":
            return ("M", self.mmul(a[1], self.rot(b[1])))
        if a[0] in ("T", "TR") or b[0] in ("T", "TR"):
            if b[0] == "M":
                a = pose(a)
                if len(b[1]) == 3 and len(b[1][0]) == 1:
                    x = self.mmul(a[1], b[1])
                    return ("M", [[x[i][0] + a[2][i]] for i in range(3)])
                if len(b[1]) == 4:
                    return ("M", self.mmul(self.hom(a), b[1]))
                if len(b[1]) == 3 and len(b[1][0]) == 3:
                    return ("T", self.mmul(a[1], b[1]), a[2])
                raise Unknown("pose times another shape")
            if a[0] == "M":
                b = pose(b)
                if len(a[1]) == 4:
                    return ("M", self.mmul(a[1], self.hom(b)))
                if len(a[1]) == 3 and len(a[1][0]) == 3:
                    return ("T", self.mmul(a[1], b[1]), [x[0] for x in self.mmul(a[1], [[y] for y in b[2]])])
                raise Unknown("another shape times pose")
            a, b = pose(a), pose(b)
            x = self.mmul(a[1], [[y] for y in b[2]])
            return ("T", self.mmul(a[1], b[1]), [x[i][0] + a[2][i] for i in range(3)])
        return ("M", self.mmul(self.mat(a), self.mat(b)))

    def inverse(self, v):
        if v[0] == "I":
            return ("I", v[1].inv())
        if v[0] == "Q":
            return ("Q", [x.neg() for x in v[1][:3]] + v[1][3:])
        if v[0] == "TR":
            return ("TR", [x.neg() for x in v[1]])
        if v[0] == "T":
            rt = [[v[1][j][i] for j in range(3)] for i in range(3)]
            p = self.mmul(rt, [[x] for x in v[2]])
            return ("T", rt, [x[0].neg() for x in p])
        raise Unknown("inverse of a matrix")

    def inner(self, a, b):
        if a[0] == "0" or b[0] == "0":
            return Z
        if a[0] == "V" and b[0] == "V":
            s = Z
            for m, c in a[1].items():
                for n, d in b[1].items():
                    s = s + c * d * self.at(mk("fn", "sumv", *sorted(m + n, key=lambda z: z.id)))
            return s
        x, y = self.vecof(a), self.vecof(b)
        if len(x) != len(y):
            raise Unknown("dot product of different sizes")
        s = Z
        for p, q in zip(x, y):
            s = s + p * q
        return s

    def all(self, v):
        """every number of v"""
        if v[0] == "M":
            return [x for r in v[1] for x in r]
        return self.vecof(v)

    def sqnorm(self, v):
        if v[0] in ("V", "0"):
            return self.inner(v, v)
        s = Z
        for x in self.all(v):
            s = s + x * x
        return s

    def fn(self, t):
        n, a = t.args[0], t.args[1:]
        if n == "zeros":
            z = [x for x in a if isinstance(x, Term)]
            return ("0",)
        if n == "identity":
            return ("I", ONE_)
        if n == "unit":
            return ("M", [[ONE_ if i == a[0] else Z] for i in range(3)])
        if n == "quat":
            if len(a) == 4:
                return ("Q", [self.sc(x) for x in a])
            v = self.ev(a[0])
            return v if v[0] == "Q" else ("QM", v[1]) if False else None
        if n == "toquat":
            v = self.ev(a[0])
            if v[0] in ("Q",):
                return v
            if v[0] == "M" and len(v[1]) == 4 and len(v[1][0]) == 1:
                return ("Q", [r[0] for r in v[1]])
            if v[0] == "M" and len(v[1]) == 3:
                # the rotation a matrix describes: kept as that matrix
                return ("M", v[1])
            raise Unknown("rotation of " + v[0])
        if n == "AngleAxis":
            if len(a) == 1:
                return self.ev(a[0])
            h = self.sc(a[0]) * const(Fraction(1, 2))
            s, c = self.trig("sin", h), self.trig("cos", h)
            return ("Q", [s * x for x in self.col(a[1])] + [c])
        if n == "Translation":
            return ("TR", [self.sc(x) for x in a] if len(a) == 3 else self.col(a[0]))
        if n == "mp":
            r = self.ev(a[0])
            for x in a[1:]:
                r = self.prod(r, self.ev(x))
            return r
        if n == "matinv":
            return self.inverse(self.ev(a[0]))
        if n == "tr":
            v = self.ev(a[0])
            if v[0] in ("0", "I", "S"):
                return v
            if v[0] == "Q":
                return self.inverse(v)
            if v[0] == "V":
                return ("VT", v[1])
            m = self.mat(v)
            return ("M", [[m[j][i] for j in range(len(m))] for i in range(len(m[0]))])
        if n == "trace":
            v = self.ev(a[0])
            m = self.mat(v)
            s = Z
            for i in range(len(m)):
                s = s + m[i][i]
            return ("S", s)
        if n == "cross":
            x, y = self.col(a[0]), self.col(a[1])
            return ("M", [[x[1] * y[2] - x[2] * y[1]], [x[2] * y[0] - x[0] * y[2]], [x[0] * y[1] - x[1] * y[0]]])
        if n == "dot":
            return ("S", self.inner(self.ev(a[0]), self.ev(a[1])))
        if n == "norm":
            return ("S", self.sqrt(self.sqnorm(self.ev(a[0]))))
        if n == "normalized":
            v = self.ev(a[0])
            return self.scale(v, self.sqrt(self.sqnorm(v)).inv())
        if n == "sqrt":
            return ("S", self.sqrt(self.sc(a[0])))
        if n == "inv":
            return ("S", self.sc(a[0]).inv())
        if n in ("sin", "cos"):
            return ("S", self.trig(n, self.sc(a[0])))
        if n == "tan":
            x = self.sc(a[0])
            return ("S", self.trig("sin", x) * self.trig("cos", x).inv())
        if n == "cwiseProduct":
            x, y = self.ev(a[0]), self.ev(a[1])
            if x[0] == "V" and y[0] == "V":
                r = {}
                for m, c in x[1].items():
                    for k, d in y[1].items():
                        z = tuple(sorted(m + k, key=lambda q: q.id))
                        r[z] = r[z] + c * d if z in r else c * d
                return ("V", r)
            if "0" in (x[0], y[0]):
                return ("0",)
            x, y = self.mat(x), self.mat(y)
            if len(x) != len(y) or len(x[0]) != len(y[0]):
                raise Unknown("product of different shapes")
            return ("M", [[p * q for p, q in zip(r, s)] for r, s in zip(x, y)])
        if n == "sum":
            if len(a) == 2:
                return ("S", self.series(a[0], a[1]))
            v = self.ev(a[0])
            if v[0] == "V":
                s = Z
                for m, c in v[1].items():
                    s = s + c * self.at(mk("fn", "sumv", *sorted(m, key=lambda z: z.id)))
                return ("S", s)
            s = Z
            for x in self.all(v):
                s = s + x
            return ("S", s)
        if n in ("acos", "asin", "atan", "exp", "log", "abs", "tan", "atan2", "fabs") and all(isinstance(x, Term) for x in a):
            try:
                xs = [self.sc(x) for x in a]
            except Unknown:
                return None
            if n in ("acos", "log") and self.eq(xs[0], ONE_):
                return ("S", Z)
            return ("S", self.at(self.fnatom(n, *xs)))
        return None

    def isroot(self, a):
        """a is not negative by its form: a product of lengths and squares"""
        sq = {x for _, x in self.fns.get("sqrt", ())}

        def ok(x, e):
            return e % 2 == 0 or x in sq or x.op == "fn" and x.args[0] == "sumv" and len(x.args) == 3 and x.args[1] is x.args[2]
        a = self.lowest(a)
        return all(len(p) == 1 and all(c > 0 and all(ok(x, e) for x, e in m) for m, c in p.items()) for p in (a.n, a.d))

    def same(self, a, b):
        return self.eq(a, b) or self.isroot(a) and self.isroot(b) and self.eq(a * a, b * b)

    def series(self, n, body):
        """sum over the elements of vectors of any length of a polynomial in them"""
        ix = mk("s", "ix")
        s = Z
        for mon, k in poly_of(body).items():
            vs, c = [], const(k)
            for x, e in mon:
                if x.op == "sel" and x.args[1] is ix and self.kind(x.args[0]) == "v" and e > 0:
                    vs += [x.args[0]] * int(e)
                elif contains(x, ix):
                    raise Unknown("sum of " + show(body)[:60])
                else:
                    c = c * self.sc(x).pw(e)
            if not vs or not any(size(v) is n for v in vs):
                raise Unknown("sum of " + show(body)[:60])
            s = s + c * self.at(mk("fn", "sumv", *sorted(vs, key=lambda z: z.id)))
        return s

    # ---- comparison
    def differ(self, a, b):
        """None when the values are equal, else what differs"""
        if a[0] == "0" and b[0] == "0" or a[0] == "I" and b[0] == "I" and self.eq(a[1], b[1]):
            return None
        if a[0] == "V" or b[0] == "V":
            x, y = (a[1] if a[0] == "V" else {}), (b[1] if b[0] == "V" else {})
            if not {a[0], b[0]} <= {"V", "0"}:
                return "a vector against " + a[0] + "/" + b[0]
            for m in set(x) | set(y):
                if not self.eq(x.get(m, Z), y.get(m, Z)):
                    return "the factor of " + "*".join(show(q) for q in m)[:80]
            return None
        if a[0] == "S" and b[0] == "S":
            return None if self.same(a[1], b[1]) else "value " + self.text(a[1]) + " instead of " + self.text(b[1])
        if "T" in (a[0], b[0]):
            if "TR" in (a[0], b[0]) or a[0] == "T" and b[0] == "T":
                up = lambda v: self.prod(v, ("Q", [Z, Z, Z, ONE_])) if v[0] == "TR" else v
                a, b = up(a), up(b)
            a, b = self.sized(a, 4, 4), self.sized(b, 4, 4)
        if a[0] in ("0", "I", "P"):
            m = self.mat(b)
            a = self.sized(a, len(m), len(m[0]))
        if b[0] in ("0", "I", "P"):
            m = self.mat(a)
            b = self.sized(b, len(m), len(m[0]))
        if "Q" in (a[0], b[0]) and (a[0] != b[0]):
            a, b = [("M", self.rot(v[1])) if v[0] == "Q" else v for v in (a, b)]
        x, y = self.mat(a), self.mat(b)
        if len(x) != len(y) or len(x[0]) != len(y[0]):
            return "%d x %d instead of %d x %d" % (len(x), len(x[0]), len(y), len(y[0]))
        for i in range(len(x)):
            for j in range(len(x[0])):
                if not self.eq(x[i][j], y[i][j]):
                    return "component (%d, %d): %s instead of %s" % (i, j, self.text(x[i][j]), self.text(y[i][j]))
        return None

    def text(self, r):
        f = lambda p: " + ".join("%s%s" % (c, "".join("*" + show(a) + ("^%s" % e if e != 1 else "") for a, e in m)) for m, c in list(p.items())[:4]) or "0"
        return f(self.reduce(r.n))[:120] + ("" if r.d == P1 else " / (" + f(r.d)[:60] + ")")
