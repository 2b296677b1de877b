"""Abstract semantics of the Eigen operations used in the repository.  Matrices/vectors are terms; linear
operations use the polynomial domain (a vector is an atom), products of matrices/transforms are non-commutative
`mp` terms, coefficients of constructed vectors are tracked exactly."""
from .terms import *
from . import interp as I
import re

NI = NotImplemented
COMP = {"x": 0, "y": 1, "z": 2, "w": 3}


def isscalar_t(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return I.isint(t) or I.isfloat(t)


def isarray(t):
    """coefficient-wise arithmetic"""
    return "ArrayWrapper<" in t or "Eigen::Array<" in t and "Eigen::Matrix<" not in t


def comp(v, i):
    """coefficient i of vector term v"""
    if v.op == "vec" and isc(i):
        k = int(i.args[0])
        if 0 <= k < len(v.args):
            return v.args[k]
    if v.op == "poly":
        r = ZERO
        ok = True
        for m, c in v.args:
            vs = [(a, e) for a, e in m if isvec(a)]
            if len(vs) != 1 or vs[0][1] != 1:
                ok = False
                break
            t = num(c)
            for a, e in m:
                if a is vs[0][0]:
                    t = mul(t, comp(a, i))
                else:
                    t = mul(t, power(a, e))
            r = add(r, t)
        if ok:
            return r
    if v.op == "fn" and v.args[0] == "mp" and v.args[-1].op == "vec" and len(v.args[-1].args) == 4 and isc(i) and 0 <= i.args[0] < 4 \
            and all(isaffine(x) for x in v.args[1:-1]):
        # an affine map on homogeneous coordinates
        h = v.args[-1]
        if h.args[3] is ONE:
            return ONE if int(i.args[0]) == 3 else comp(mp(mk("fn", "mp", *v.args[1:-1]) if len(v.args) > 3 else v.args[1], mk("vec", *h.args[:3])), i)
    if v.op == "fn" and v.args[0] == "mp" and v.args[-1].op == "vec" and v.args[1].op == "fn" and v.args[1].args[0] == "Translation" and isc(i):
        t, h = v.args[1], v.args[-1]
        tt = t.args[1:] if len(t.args) == 4 else [comp(t.args[1], num(k)) for k in range(3)]
        if len(v.args) == 3 and len(h.args) == 3 and 0 <= i.args[0] < 3:
            return add(h.args[int(i.args[0])], tt[int(i.args[0])])
    if v.op == "fn" and v.args[0] == "zeros":
        return ZERO
    if v.op == "fn" and v.args[0] == "ones":
        return ONE
    if v.op == "fn" and v.args[0] == "const":
        return v.args[1]
    if v.op == "fn" and v.args[0] == "unit":
        if isc(i):
            return ONE if int(i.args[0]) == v.args[1] else ZERO
    if v.op == "fn" and v.args[0] == "quat" and isc(i):
        return v.args[1 + int(i.args[0])]  # stored x,y,z,w
    if v.op == "ite":
        return ite(v.args[0], comp(v.args[1], i), comp(v.args[2], i))
    return sel(v, i)


_vecset = {}
_affine = {}


def isaffine(t):
    return t in _affine or t.op == "fn" and (t.args[0] in ("Translation", "AngleAxis", "quat", "identity") or t.args[0] == "matinv" and isaffine(t.args[1]))


def markvec(t):
    _vecset[t] = True
    return t


def isvec(t):
    if t in _vecset:
        return True
    if t.op == "vec":
        return True
    if t.op == "fn" and t.args[0] in ("mp", "zeros", "unit", "tr", "translation", "linear", "cross", "matinv", "quat", "coeffs", "block", "eigout"):
        return True
    if t.op == "poly":
        return any(isvec(a) for m, _ in t.args for a, _ in m)
    return False


def vecmap(a, b, f):
    """elementwise where both are explicit"""
    if a.op == "vec" and b.op == "vec" and len(a.args) == len(b.args):
        return mk("vec", *[f(x, y) for x, y in zip(a.args, b.args)])
    return None


def mp(a, b):
    """non-commutative product, flattened"""
    xs = []
    k = Fraction(1)
    for t in (a, b):
        if t.op == "fn" and t.args[0] == "mp":
            xs.extend(t.args[1:])
        else:
            xs.append(t)
    xs = [x for x in xs if not (x.op == "fn" and x.args[0] == "identity")]
    # X^-1 X = X X^-1 = 1
    ys = []
    for x in xs:
        if ys and (x is minv(ys[-1])):
            ys.pop()
        else:
            ys.append(x)
    xs = ys
    # scalar factors out of monomials
    sc = ONE
    out = []
    for x in xs:
        if x.op == "poly" and len(x.args) == 1:
            m, c = x.args[0]
            sc = mul(sc, num(c))
            vs = [(a_, e_) for a_, e_ in m if isvec(a_)]
            if len(vs) == 1 and vs[0][1] == 1:
                for a_, e_ in m:
                    if a_ is not vs[0][0]:
                        sc = mul(sc, power(a_, e_))
                x = vs[0][0]
            else:
                x = of_poly({m: 1})
        out.append(x)
    if not out:
        return mul(sc, mk("fn", "identity"))
    if len(out) == 1:
        return mul(sc, out[0])
    return mul(sc, markvec(mk("fn", "mp", *out)))


def minv(x):
    """inverse of a transform term"""
    if x.op == "fn" and x.args[0] == "matinv":
        return x.args[1]
    if x.op == "fn" and x.args[0] == "identity":
        return x
    if x.op == "fn" and x.args[0] == "Translation":
        return markvec(mk("fn", "Translation", *[neg(a) for a in x.args[1:]]))
    if x.op == "fn" and x.args[0] == "mp":
        r = mk("fn", "identity")
        for a in reversed(x.args[1:]):
            r = mp(r, minv(a))
        return r
    return markvec(mk("fn", "matinv", x))


def vmul(a, s):
    """scalar times vector"""
    if a.op == "vec":
        return mk("vec", *[mul(x, s) for x in a.args])
    markvec(a) if a.op != "poly" else None
    return mul(a, s)


def vadd(a, b, sgn=1):
    r = vecmap(a, b, lambda x, y: add(x, y if sgn > 0 else neg(y)))
    if r is not None:
        return r
    for t in (a, b):
        if t.op not in ("poly", "c"):
            markvec(t)
    return add(a, b if sgn > 0 else neg(b))


def call(it, st, fr, e, q, name, op, oloc, args):
    V = lambda i: it.argv(st, args[i])
    n = len(args)
    ts = [a.get("t", "") for a in e["a"]]
    ov = it.read(st, oloc) if oloc is not None else None
    ot = (e.get("o") or {}).get("t", "")
    # coefficient access
    if oloc is not None and (op == "()" or op == "[]" or name in ("coeff", "coeffRef")):
        if n == 1:
            it.emit(st, "index", e, loc=oloc, idx=V(0), base=ov, at=False, node=e, n=None, eigen=True)
            return ("l", I.L_i(oloc, V(0))) if ov.op in ("s", "fld", "sel", "vec", "astore", "uninit", "new") or e.get("lv") and not e.get("mconst") else comp(ov, V(0))
        if n == 2:
            it.emit(st, "index2", e, loc=oloc, i=V(0), j=V(1), base=ov, node=e)
            return ("l", I.L_i(oloc, mk("ij", V(0), V(1))))
    if oloc is not None and name in COMP and n == 0:
        k = num(COMP[name])
        if "Quaternion" in ot or "Quaternion" in q:
            if ov.op == "fn" and ov.args[0] == "quat":
                return ov.args[1 + COMP[name]]
            return ("l", I.L_i(oloc, k))
        if ov.op in ("poly",) or (ov.op == "fn"):
            return comp(ov, k)
        return ("l", I.L_i(oloc, k))
    if name in ("rows", "size", "cols") and n == 0 and oloc is not None:
        r, c = dims(ov, ot)
        return r if name == "rows" else c if name == "cols" else mul(r, c)
    if name == "resize" and oloc is not None:
        it.emit(st, "resize", e, loc=oloc, n=V(0), m=V(1) if n > 1 else None, base=ov)
        it.write(st, oloc, fn("dyn", V(0), V(1) if n > 1 else ONE, mk("uninit", lit(str(it.fresh())))))
        return mk("void")
    if name in ("setZero", "setOnes", "setIdentity") and oloc is not None:
        size = [V(i) for i in range(n)]
        m = DIM.search(ot)
        if not size and ov is not None and m and min(int(m.group(1)), int(m.group(2))) < 0:
            size = [z for z in dims(ov, ot) if z is not None]
        it.write(st, oloc, mk("fn", {"setZero": "zeros", "setOnes": "ones", "setIdentity": "identity"}[name], *size))
        return ("l", oloc)
    if name in ("Zero", "Ones", "Identity") and oloc is None:
        return markvec(mk("fn", {"Zero": "zeros", "Ones": "ones", "Identity": "identity"}[name], *[V(i) for i in range(n)]))
    if name in ("UnitX", "UnitY", "UnitZ"):
        return markvec(mk("fn", "unit", "XYZ".index(name[-1])))
    if name == "Constant":
        return markvec(mk("fn", "const", V(n - 1), *[V(i) for i in range(n - 1)]))
    if oloc is not None and op in ("+", "-") and n == 1:
        return vadd(ov, V(0), 1 if op == "+" else -1)
    if oloc is None and op in ("+", "-") and n == 2:
        return vadd(V(0), V(1), 1 if op == "+" else -1)
    if oloc is not None and op == "-" and n == 0:
        if ov.op == "vec":
            return mk("vec", *[neg(x) for x in ov.args])
        markvec(ov) if ov.op != "poly" else None
        return neg(ov)
    if op == "*" and n + (oloc is not None) == 2:
        a, b = (ov, V(0)) if oloc is not None else (V(0), V(1))
        ta, tb = (ot, ts[0]) if oloc is not None else (ts[0], ts[1])
        if isscalar_t(tb):
            return vmul(a, b)
        if isscalar_t(ta):
            return vmul(b, a)
        if isarray(ta) and isarray(tb):
            return fn("cwiseProduct", *sorted((a, b), key=lambda z: z.id))
        for t, x in ((ta, a), (tb, b)):
            if "Transform<" in t:
                for y in (x.args[1:] if x.op == "fn" and x.args[0] == "mp" else (x,)):
                    _affine[y] = True
        return mp(a, b)
    if op == "/" and oloc is not None and n == 1:
        if isscalar_t(ts[0]):
            return vmul(ov, inv(V(0)))
    if op in ("+=", "-=") and oloc is not None:
        nv = vadd(ov, V(0), 1 if op == "+=" else -1)
        it.store(st, e, oloc, nv)
        return ("l", oloc)
    if op in ("*=", "/=") and oloc is not None:
        if isscalar_t(ts[0]):
            nv = vmul(ov, V(0) if op == "*=" else inv(V(0)))
        else:
            nv = mp(ov, V(0))
        it.store(st, e, oloc, nv)
        return ("l", oloc)
    if op == "=" and oloc is not None and n == 1:
        it.store(st, e, oloc, V(0))
        return ("l", oloc)
    if op == "<<" and oloc is not None:
        it.write(st, oloc, mk("cinit", V(0)))
        it._cinit = (oloc, [V(0)])
        return mk("comma", oloc, V(0))
    if op == "," and oloc is not None and ov.op == "comma":
        xs = ov.args[1:] + (V(0),)
        it.write(st, ov.args[0], mk("vec", *xs))
        return mk("comma", ov.args[0], *xs)
    if name in ("finished",) and ov is not None and ov.op == "comma":
        return it.read(st, ov.args[0])
    if name == "norm" and n == 0:
        return fn("norm", signless(ov))
    if name == "squaredNorm":
        return power(fn("norm", signless(ov)), 2)
    if name == "dot" and n == 1:
        a, b = sorted((ov, V(0)))
        return dot(a, b)
    if name == "cross":
        return markvec(fn("cross", ov, V(0)))
    if name in ("transpose", "adjoint"):
        return markvec(fn("tr", ov))
    if name in ("normalized",):
        return markvec(fn("normalized", ov))
    if name in ("normalize",) and oloc is not None:
        it.write(st, oloc, markvec(fn("normalized", ov)))
        return mk("void")
    if name == "inverse":
        return minv(ov)
    if name in ("translation", "linear", "rotation", "matrix", "affine", "array", "eval", "coeffs", "vec", "derived", "noalias",
                "toRotationMatrix", "toDenseMatrix", "head", "tail", "segment", "block", "topRows", "bottomRows", "leftCols", "rightCols",
                "row", "col", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "corner", "conjugate", "cwiseAbs", "data"):
        if name == "matrix" and "Transform<" in ot:
            return ("l", I.L_f(oloc, "<matrix>"))
        if name in ("eval", "derived", "noalias", "array", "matrix") and n == 0:
            return ("l", oloc) if name == "noalias" or (name in ("matrix", "array", "derived") and oloc is not None) else ov
        if name == "data":
            it.datatype[I.L_f(oloc, "<data>")] = ot
            return mk("addr", I.L_f(oloc, "<data>"))
        blk = block(name, e, ot, [V(i) for i in range(n)], ov)
        if blk:
            if e.get("lv") or not e.get("mconst"):
                return ("l", I.L_f(oloc, blk))
            f = fld(ov, blk)
            return markvec(f) if isinstance(f, Term) else f
        if n and oloc is not None and any(not isc(V(i)) for i in range(n)):
            # a part picked by a value: an element of its own kind
            ix = mk("part", name, *[V(i) for i in range(n)])
            if e.get("lv") or not e.get("mconst"):
                return ("l", I.L_i(oloc, ix))
            f = sel(ov, ix)
            return markvec(f) if isinstance(f, Term) else f
        if e.get("lv") or not e.get("mconst"):
            return ("l", I.L_f(oloc, "<%s%s>" % (name, "".join("," + show(V(i)) for i in range(n)))))
        f = fld(ov, "<%s%s>" % (name, "".join("," + show(V(i)) for i in range(n))))
        return markvec(f) if isinstance(f, Term) else f
    if name == "lpNorm":
        return fn("lpNorm", signless(ov), lit(e.get("ta", "")))
    if name in ("sum", "prod", "mean", "maxCoeff", "minCoeff", "cwiseProduct", "cwiseQuotient", "array", "determinant", "trace", "angularDistance", "slerp",
                "isApprox", "unitOrthogonal", "cast", "angle", "axis", "colwise", "rowwise", "cwiseMin", "cwiseMax", "cwiseSqrt", "cwiseInverse"):
        if name == "cast":
            return ov
        if name in ("minCoeff", "maxCoeff") and n:
            t = fn(name, ov)
            for i in range(n):
                v = V(i)
                if v.op == "addr":
                    it.write(st, v.args[0], fn("arg" + name, ov, num(i)))
            return t
        return fn(name, ov, *[V(i) for i in range(n)])
    return NI


BLK = re.compile(r", (-?\d+), (-?\d+), (?:true|false)>*>$")


def block(name, e, ot, a, ov=None):
    """one name for a part of fixed position and size: <block,row,column,rows,columns>"""
    if name not in ("block", "segment", "head", "tail", "topRows", "bottomRows", "leftCols", "rightCols", "topLeftCorner", "topRightCorner",
                    "bottomLeftCorner", "bottomRightCorner", "row", "col") or any(not isc(x) for x in a):
        return None
    m, d = BLK.search(e.get("t", "")), DIM.search(ot)
    if not m or not d:
        return None
    a = [int(x.args[0]) for x in a]
    nr, nc, R, C = int(m.group(1)), int(m.group(2)), int(d.group(1)), int(d.group(2))
    if ov is not None and (R < 0) != (C < 0) and max(R, C) == 1:
        z = size(ov)
        z = int(z.args[0]) if isc(z) else -1
        R, C = (z, C) if R < 0 else (R, z)
    if name == "block":
        r, c = a[0], a[1]
        nr, nc = (nr if nr >= 0 else a[2]), (nc if nc >= 0 else a[3])
    else:
        if name == "segment":
            r = a[0]
            k = a[1] if len(a) > 1 else max(nr, nc)
            r, c, nr, nc = (r, 0, k, 1) if nc == 1 else (0, r, 1, k)
        elif name in ("head", "tail"):
            k = a[0] if a else max(nr, nc)
            n = R if nc == 1 else C
            if name == "tail" and n < 0:
                return None
            r = 0 if name == "head" else n - k
            r, c, nr, nc = (r, 0, k, 1) if nc == 1 else (0, r, 1, k)
        elif name in ("row", "col"):
            if min(R, C) < 0:
                return None
            r, c, nr, nc = (a[0], 0, 1, C) if name == "row" else (0, a[0], R, 1)
        else:
            if name.endswith("Rows"):
                nr, nc = (nr if nr >= 0 else a[0]), C
            elif name.endswith("Cols"):
                nr, nc = R, (nc if nc >= 0 else a[0])
            elif a:
                nr, nc = a[0], a[1]
            if min(R, C, nr, nc) < 0:
                return None
            r = R - nr if name.startswith("bottom") else 0
            c = C - nc if name.startswith("right") or name.endswith("RightCorner") else 0
    if min(r, c) < 0 or nr < 1 or nc < 1:
        return None
    return "<block,%d,%d,%d,%d>" % (r, c, nr, nc)


DIM = re.compile(r"Eigen::(?:Matrix|Array)<[\w ]+, (-?\d+), (-?\d+)")


def dims(v, t):
    """(rows, cols) of a matrix value of static type t"""
    m = DIM.search(t)
    fr, fc = (int(m.group(1)), int(m.group(2))) if m else (-1, -1)
    if "Quaternion" in t and "coeffs" not in t:
        fr, fc = 4, 1
    r = c = None
    b = dimbase(v)
    if b.op == "fn" and b.args[0] in ("dyn", "zeros", "ones", "const", "identity"):
        a = [x for x in b.args[1:] if isinstance(x, Term)]
        a = a[1:] if b.args[0] == "const" else a[:2] if b.args[0] == "dyn" else a
        if len(a) == 2:
            r, c = a
        elif len(a) == 1:
            r, c = (ONE, a[0]) if fr == 1 else (a[0], ONE)
    if b.op == "vec" and (fc == 1 or fr == 1):
        r, c = (num(len(b.args)), ONE) if fc == 1 else (ONE, num(len(b.args)))
    if fr >= 0:
        r = num(fr)
    if fc >= 0:
        c = num(fc)
    if r is None:
        r = size(b) if fc == 1 else fn("rows", b)
    if c is None:
        c = size(b) if fr == 1 else fn("cols", b)
    return r, c


def dimbase(v):
    while v.op in ("astore", "mapped") or (v.op == "fold") or (v.op == "upd" and all(str(k).startswith("<") for k, _ in v.args[1:])):
        v = v.args[0] if v.op != "fold" else v.args[1]
    return v


def signless(v):
    """|v| == |-v|: canonical sign"""
    if v.op == "poly":
        if v.args[0][1] < 0:
            return neg(v)
    return v


def dot(a, b):
    if a.op == "vec" and b.op == "vec" and len(a.args) == len(b.args):
        r = ZERO
        for x, y in zip(a.args, b.args):
            r = add(r, mul(x, y))
        return r
    if a is b:
        return power(fn("norm", signless(a)), 2)
    # bilinear in the sign
    s = 1
    if a.op == "poly" and a.args[0][1] < 0:
        a, s = neg(a), -s
    if b.op == "poly" and b.args[0][1] < 0:
        b, s = neg(b), -s
    a, b = sorted((a, b))
    return scale(mk("fn", "dot", a, b), s)


def ctor(it, st, fr, e, r, args):
    V = lambda i: it.argv(st, args[i])
    n = len(args)
    t = e.get("t", "")
    short = r.split("::")[-1]
    pts = [a.get("t", "") for a in e["a"]]
    if short == "Quaternion":
        if n == 4:
            w, x, y, z = V(0), V(1), V(2), V(3)
            return markvec(mk("fn", "quat", x, y, z, w))
        if n == 1:
            v = V(0)
            if "Quaternion" in pts[0]:
                return v
            return markvec(fn("toquat", v))
        if n == 0:
            return mk("uninit", lit(t + str(it.fresh())))
    if short in ("Matrix", "Array"):
        if n == 0:
            return mk("uninit", lit(t + str(it.fresh())))
        if n >= 2 and all(isscalar_t(p) for p in pts):
            # fixed size vector from coefficients, or dynamic sizes
            if "-1" in t:
                return fn("dyn", V(0), V(1), mk("uninit", lit(str(it.fresh()))))
            return mk("vec", *[V(i) for i in range(n)])
        if n == 1:
            if isscalar_t(pts[0]):
                return fn("dyn", V(0), ONE, mk("uninit", lit(str(it.fresh()))))
            return V(0)
    if short in ("Transform",):
        if n == 0:
            return mk("uninit", lit(t + str(it.fresh())))
        if n == 1:
            return V(0)
    if short in ("Translation", "AngleAxis"):
        return markvec(mk("fn", short, *[V(i) for i in range(n)]))
    if n == 1 and not isscalar_t(pts[0]):
        return V(0)
    if n == 0:
        return mk("uninit", lit(t + str(it.fresh())))
    return markvec(mk("fn", "ctor:" + short, *[V(i) for i in range(n)]))
