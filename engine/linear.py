"""convex polyhedra over the monomials of terms: emptiness by Fourier-Motzkin elimination (exact, sound for the reals)"""
from fractions import Fraction
from .terms import *


def rows(fs):
    """(coefficients, constant, strict): sum c*m + k <= 0 (or < 0)"""
    out = []
    for f in fs:
        for p, s in ineq(f):
            d = dict(poly_of(p))
            k = d.pop((), Fraction(0))
            out.append((tuple(sorted(d.items(), key=lambda x: id(x[0]))), k, s))
    return out


def norm(rs):
    best = {}
    for d, k, s in rs:
        if d:
            g = abs(d[0][1])
            d = tuple((m, c / g) for m, c in d)
            k = k / g
        o = best.get(d)
        if o is None or (k, s) > o:
            best[d] = (k, s)
    return [(d, k, s) for d, (k, s) in best.items()]


def merge(keys, a, b):
    out = dict(a)
    for m, c in b:
        out[m] = out.get(m, 0) + c
    return out


def empty(fs, limit=4000):
    """no real values of the monomials meet all the linear facts (False: unknown or there are some)"""
    rs = norm(rows(fs))
    while True:
        if any(not d and (k > 0 or k == 0 and s) for d, k, s in rs):
            return True
        rs = [r for r in rs if r[0]]
        if not rs:
            return False
        up, dn = {}, {}
        for d, _, _ in rs:
            for m, c in d:
                (up if c > 0 else dn).setdefault(m, []).append(1)
        m = min(set(up) | set(dn), key=lambda m: (len(up.get(m, ())) * len(dn.get(m, ())) - len(up.get(m, ())) - len(dn.get(m, ())), id(m)))
        keep, ups, dns = [], [], []
        for r in rs:
            c = dict(r[0]).get(m)
            (keep if c is None else ups if c > 0 else dns).append(r)
        for a in ups:
            ca = dict(a[0])[m]
            for b in dns:
                cb = -dict(b[0])[m]
                d = {}
                for x, c in a[0]:
                    d[x] = d.get(x, 0) + c / ca
                for x, c in b[0]:
                    d[x] = d.get(x, 0) + c / cb
                d = tuple(sorted(((x, c) for x, c in d.items() if c), key=lambda x: id(x[0])))
                keep.append((d, a[1] / ca + b[1] / cb, a[2] or b[2]))
        rs = norm(keep)
        if len(rs) > limit:
            return False


def implied(fs, goal):
    """the linear facts imply the linear goal"""
    if goal.op == "eq":
        return implied(fs, le(goal.args[0], ZERO)) and implied(fs, le(neg(goal.args[0]), ZERO))
    if goal.op not in ("lt", "le", "lei"):
        return False
    return empty(list(fs) + [lnot(goal)])
