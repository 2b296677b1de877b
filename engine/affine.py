"""Evaluation of array values over blocks: resolves loop-built arrays (fold of an astore chain) at symbolic positions
`stride*K + c`, under the assumption that a length is `a*q + r` for a symbolic q >= 0 and a given residue r."""
from .terms import *

Q = mk("s", "q")
K = mk("s", "k")


class Unknown(Exception):
    pass


class Blocks:
    def __init__(self, loopinfo, assign):
        """assign: {term: replacement} (typically the size of the input -> a*q + r)"""
        self.info = loopinfo
        self.assign = assign
        self.memo = {}
        self.facts = [le(ZERO, Q, True), le(ZERO, K, True), lt(K, Q, True)]
        self.selhook = None

    # --- canonicalisation under the assignment
    def R(self, t):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return tuple(self.R(x) for x in t)
            return t
        if t in self.assign:
            return self.assign[t]
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.R1(t)
        return r

    def R1(self, t):
        if t.op in ("c", "lit", "str", "null", "undef", "s", "var", "loop"):
            return t
        if t.op == "poly":
            r = ZERO
            for mono, c in t.args:
                x = num(c)
                for a, e in mono:
                    x = mul(x, power(self.R(a), e))
                r = add(r, x)
            return r
        if t.op == "fold":
            d, p0, h, ev = t.args
            stp = sub(ev, h)
            if isc(stp) and p0.op in ("c", "poly", "s"):
                return add(self.R(p0), mul(stp, self.trips(d)))
            return t
        if t.op in ("and", "or"):
            xs = [self.decide(self.R(x)) for x in t.args]
            r = land(*xs) if t.op == "and" else lor(*xs)
            return r
        if t.op == "ite":
            c = self.decide(self.R(t.args[0]))
            if c is TRUE:
                return self.R(t.args[1])
            if c is FALSE:
                return self.R(t.args[2])
            return ite(c, self.R(t.args[1]), self.R(t.args[2]))
        if t.op == "astore":
            return mk("astore", self.R(t.args[0]), self.R(t.args[1]), self.R(t.args[2]))
        if t.op == "sel":
            a, i = t.args[0], self.R(t.args[1])
            if self.selhook:
                x = self.selhook(a, i)
                if x is not None:
                    return x
            return sel(self.R(a), i)
        if t.op == "fn" and t.args[0] == "size":
            x = t.args[1]
            while x.op == "fold" and x.args[3].op == "astore":
                x = x.args[1]
            return self.R(size(x)) if x is not t.args[1] else fn("size", self.R(x))
        if t.op == "fn" and t.args[0] in ("idiv", "imod") and len(t.args) == 3:
            a, b = self.R(t.args[1]), self.R(t.args[2])
            x = self.divmod(a, b)
            if x is not None:
                return x[0] if t.args[0] == "idiv" else x[1]
            return fn(t.args[0], a, b)
        r = rebuild(t.op, tuple(self.R(x) for x in t.args))
        if isinstance(r, Term) and r.op in ("lt", "le", "lei", "eq", "not", "b"):
            return self.decide(r)
        return r

    def divmod(self, a, b):
        if not isc(b) or b.args[0] <= 0:
            return None
        n = int(b.args[0])
        co, rest = self.lin(a)
        if rest is None or co is None:
            return None
        if any(c % n for c in co.values()):
            return None
        qq = ZERO
        for v, c in co.items():
            qq = add(qq, mul(num(c // n), v))
        return add(qq, num(rest // n)), num(rest % n)

    def lin(self, a):
        """poly in Q and K with integer coefficients -> ({sym: c}, const)"""
        if isc(a):
            return ({}, int(a.args[0])) if a.args[0].denominator == 1 else (None, None)
        if a is Q or a is K:
            return {a: 1}, 0
        if a.op != "poly":
            return None, None
        co, k = {}, 0
        for m, c in a.args:
            if c.denominator != 1:
                return None, None
            if not m:
                k = int(c)
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in (Q, K):
                co[m[0][0]] = int(c)
            else:
                return None, None
        return co, k

    def trips(self, d):
        lo, hi, st = self.R(d.args[0]), self.R(d.args[1]), d.args[2]
        n = sub(hi, lo)
        co, k = self.lin(n)
        s = int(st.args[0]) if isc(st) else 0
        if co is None or s <= 0 or any(c % s for c in co.values()) or any(v is not Q for v in co):
            raise Unknown("loop trip count %s / %s" % (show(n), show(st)))
        t = mul(num(co.get(Q, 0) // s), Q)
        c = -((-k) // s)
        r = add(t, num(c))
        if not entails(self.facts, le(ZERO, r, True)):
            raise Unknown("trip count %s may be negative" % show(r))
        return r

    def decide(self, c):
        c = tobool(c)
        if isc(c):
            return c
        if entails(self.facts, c):
            return TRUE
        if entails(self.facts, lnot(c)):
            return FALSE
        return c

    # --- element at position P (reduced)
    def elem(self, A, P):
        if A.op == "astore":
            i = self.R(A.args[1])
            e = self.decide(eq(i, P))
            if e is TRUE:
                return self.R(A.args[2])
            if e is FALSE:
                return self.elem(A.args[0], P)
            raise Unknown("whether %s is %s" % (show(i), show(P)))
        if A.op == "ite":
            c = self.decide(self.R(A.args[0]))
            if isc(c):
                return self.elem(A.args[1] if c is TRUE else A.args[2], P)
            raise Unknown("condition " + show(c)[:200])
        if A.op == "fold":
            return self.fold(A, P)
        if A.op == "seq":
            pos = ZERO
            for p in A.args:
                p = self.resolve(p)
                for q in p:
                    n = self.R(part_size(q))
                    nx = add(pos, n)
                    if self.decide(lt(P, nx, True)) is TRUE:
                        if q[0] == "all":
                            return self.elem(q[1], sub(P, pos))
                        if q[0] == "rep":
                            return q[2]
                        if q[0] == "item":
                            if sub(P, pos) is ZERO:
                                return self.R(q[1])
                        raise Unknown("part " + show(q)[:100])
                    if self.decide(le(nx, P, True)) is not TRUE:
                        raise Unknown("position %s against %s" % (show(P), show(nx)))
                    pos = nx
            raise Unknown("position %s outside" % show(P))
        return self.R(sel(A, P))

    def resolve(self, p):
        if p[0] == "alt":
            c = self.decide(self.R(p[1]))
            if c is TRUE:
                return [x for q in p[2] for x in self.resolve(q)]
            if c is FALSE:
                return [x for q in p[3] for x in self.resolve(q)]
            raise Unknown("condition " + show(c)[:200])
        return [p]

    def len(self, A):
        if A.op == "ite":
            c = self.decide(self.R(A.args[0]))
            if isc(c):
                return self.len(A.args[1] if c is TRUE else A.args[2])
            raise Unknown("condition " + show(c)[:200])
        if A.op == "astore":
            return self.len(A.args[0])
        if A.op == "fold":
            return self.len(A.args[1])
        if A.op == "seq":
            n = ZERO
            for p in A.args:
                for q in self.resolve(p):
                    n = add(n, self.len(q[1]) if q[0] == "all" else self.R(part_size(q)))
            return n
        return self.R(size(A))

    def fold(self, A, P):
        d, p0, h, ev = A.args
        iv = self.info[d]["iv"]
        lo, st = self.R(d.args[0]), d.args[2]
        n = self.trips(d)
        stores = []
        x = ev
        while x.op == "astore":
            stores.append((x.args[1], x.args[2]))
            x = x.args[0]
        if x is not h:
            raise Unknown("loop does not only store elements")
        J = mk("s", "j")
        m = {iv: add(lo, mul(st, J))}
        stride = None
        offs = []
        for i, v in stores:
            ij = self.R(subst(i, m))
            s = sub(subst(ij, {J: add(J, ONE)}), ij)
            if not isc(s) or int(s.args[0]) <= 0 or (stride is not None and s is not stride):
                raise Unknown("stride " + show(s))
            stride = s
            offs.append((subst(ij, {J: ZERO}), v))
        cs = [int(o.args[0]) for o, _ in offs if isc(o)]
        if len(cs) != len(offs) or max(cs) - min(cs) >= int(stride.args[0]):
            raise Unknown("stores of different iterations may overlap")
        for o, v in offs:
            # is P = o + stride*j for some 0 <= j < n ?
            r = self.divmod(sub(P, o), stride)
            if r is None or r[1] is not ZERO:
                continue
            j = r[0]
            if self.decide(land(le(ZERO, j, True), lt(j, n, True))) is TRUE:
                return self.R(subst(v, {iv: add(lo, mul(st, j))}))
            if self.decide(lor(lt(j, ZERO, True), le(n, j, True))) is not TRUE:
                raise Unknown("iteration %s of %s" % (show(j), show(n)))
        return self.elem(p0, P)
