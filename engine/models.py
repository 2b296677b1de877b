"""Abstract semantics of the standard library, libm and Eigen operations the repository uses."""
from .terms import *
from . import interp as I

MATH = {"sqrt", "cos", "sin", "tan", "acos", "asin", "atan", "atan2", "floor", "ceil", "round", "exp", "log", "log2", "pow", "fmod",
        "isnan", "isinf", "isfinite", "fabs", "abs", "hypot", "fmin", "fmax", "log10", "rint", "lround", "trunc", "cbrt", "copysign",
        "remainder"}
IDENT = {"std::move", "std::forward", "std::ref", "std::cref", "std::addressof", "std::as_const"}
SEQ = ("std::vector", "std::basic_string", "std::deque", "std::list", "std::array", "std::initializer_list", "std::set", "std::map",
       "std::unordered_map", "std::unordered_set", "std::multimap", "std::queue", "std::priority_queue", "std::stack", "std::multiset")
MAPS = ("std::map", "std::unordered_map", "std::multimap")
SETS = ("std::set", "std::unordered_set", "std::multiset")
NI = NotImplemented


def _obj(it, st, oloc):
    return it.read(st, oloc) if oloc is not None else None


def itval(loc, pos):
    return mk("it", loc, pos)


def elemtype(t):
    """the first template argument of a container type"""
    i = t.find("<")
    if i < 0:
        return ""
    d, out = 0, ""
    for ch in t[i + 1:]:
        if ch in ",>" and d == 0:
            break
        d += (ch == "<") - (ch == ">")
        out += ch
    return out.strip()


def callite(it, st, e, f, args):
    """a call through one of several functions that change nothing"""
    if f.op == "ite":
        a = callite(it, st, e, f.args[1], args)
        b = callite(it, st, e, f.args[2], args) if a is not None else None
        return ite(f.args[0], a, b) if b is not None and a.op != "void" else None
    if f.op != "lam":
        return None
    s2 = st.copy()
    r = it.call_lambda(s2, f, args, e)
    if r is None or any(k in st.store and st.store[k] is not v for k, v in s2.store.items()):
        return None
    return it.argv(st, r) if isinstance(r, tuple) else r


def call(it, st, fr, e, q, oloc, args):
    V = lambda i: it.argv(st, args[i])
    n = len(args)
    base = q.rsplit("::", 1)[0] if "::" in q else ""
    name = q.rsplit("::", 1)[-1]
    op = e.get("op")
    if q in IDENT and n == 1:
        return args[0] if args[0][0] == "l" else args[0][1]
    plain = q[5:] if q.startswith("std::") else q
    if plain.startswith("__builtin_"):
        plain = plain[10:]
    if plain in MATH and oloc is None:
        if plain in ("fabs", "abs") and n == 1:
            v = V(0)
            if it.simp(st, le(ZERO, v)) is TRUE:
                return v
            return tabs(v)
        if plain == "fmin":
            return tmin(V(0), V(1))
        if plain == "fmax":
            return tmax(V(0), V(1))
        if plain in ("isnan", "isinf", "isfinite"):
            return tobool(fn(plain, V(0)))
        return fn(plain, *[V(i) for i in range(n)])
    if plain in ("expect",):
        return V(0)
    if q in ("std::min", "std::max"):
        if n == 2:
            return (tmin if name == "min" else tmax)(V(0), V(1))
        if n == 1 and V(0).op in ("seq", "vec"):
            items = [p[1] for p in V(0).args] if V(0).op == "seq" else list(V(0).args)
            r = items[0]
            for x in items[1:]:
                r = (tmin if name == "min" else tmax)(r, x)
            return r
    if q == "std::swap" and n == 2 and args[0][0] == "l" and args[1][0] == "l":
        a, b = V(0), V(1)
        it.write(st, args[0][1], b)
        it.write(st, args[1][1], a)
        return mk("void")
    if q == "std::make_pair":
        return rec({"first": V(0), "second": V(1)})
    if q == "std::make_tuple" or q == "std::tie":
        return mk("vec", *[V(i) for i in range(n)])
    if q == "std::get":
        ta = e.get("ta", "")
        k = ta.split(",")[0].strip()
        if k.isdigit():
            v = V(0)
            if v.op == "rec":
                return fld(v, ["first", "second"][int(k)])
            return sel(v, num(int(k)))
    if q in ("std::begin", "std::cbegin", "std::end", "std::cend") and n == 1:
        loc = args[0][1] if args[0][0] == "l" else it.temp(st, args[0][1])
        return itval(loc, ZERO) if "begin" in name else itval(loc, size(it.read(st, loc)))
    if q == "std::distance" and n == 2 and V(0).op == "it" and V(1).op == "it":
        return sub(V(1).args[1], V(0).args[1])
    if q in ("std::next", "std::prev") and V(0).op == "it":
        d = V(1) if n > 1 else ONE
        return itval(V(0).args[0], add(V(0).args[1], d if name == "next" else neg(d)))
    if q == "std::advance" and V(0).op == "it":
        it.write(st, args[0][1], itval(V(0).args[0], add(V(0).args[1], V(1))))
        return mk("void")
    if q in ("memcpy", "std::memcpy", "memmove", "std::memmove") and n == 3:
        d, s, cnt = V(0), V(1), V(2)
        it.emit(st, "memcpy", e, dst=d, src=s, n=cnt, node=e)
        if d.op == "addr":
            src = it.read(st, s.args[0]) if s.op == "addr" else mk("sel", s, ZERO)
            dt = e["a"][0]
            it.write(st, d.args[0], fn("bits", src)) if False else it.write(st, d.args[0], src)
        return d
    if q in ("memset", "std::memset"):
        it.emit(st, "memset", e, dst=V(0), v=V(1), n=V(2), node=e)
        if V(0).op == "addr":
            it.write(st, V(0).args[0], fn("memset", V(1), V(2)))
        return V(0)
    if q.startswith("std::numeric_limits::"):
        import re
        return fn("limits::" + name, lit(e.get("f", "").split("numeric_limits>#")[-1].split("@")[0]))
    # ------- iterators
    if oloc is not None and (q.startswith("__gnu_cxx::__normal_iterator") or "_iterator::" in q or q.startswith("std::_Rb_tree") or
                             q.startswith("std::_List") or q.startswith("std::_Deque_iterator") or q.startswith("std::__detail::_Node")):
        v = it.read(st, oloc)
        if op in ("++", "--"):
            d = ONE if op == "++" else num(-1)
            if v.op == "it":
                nv = itval(v.args[0], add(v.args[1], d))
            else:
                nv = fn("it" + op, v)
            it.write(st, oloc, nv)
            if n == 1:
                return v
            return ("l", oloc)
        if op == "*" and n == 0 or op == "->":
            if v.op == "it":
                it.emit(st, "iterderef", e, it=v, base=it.read(st, v.args[0]))
                loc = derefit(it, st, e, v)
                return ("l", loc) if op == "*" else mk("addr", loc)
            it.emit(st, "deref", e, ptr=v)
            if v.op == "mit":
                if len(v.args) > 2:
                    return v.args[1]
                loc = it.deref(st, v)
                return ("l", loc) if op == "*" else mk("addr", loc)
            loc = it.deref(st, v)
            return ("l", loc) if op == "*" else mk("addr", loc)
        if op in ("+", "-", "+=", "-=") and v.op == "it":
            a = V(0)
            if a.op == "it" and op == "-":
                return sub(v.args[1], a.args[1])
            nv = itval(v.args[0], add(v.args[1], a if op[0] == "+" else neg(a)))
            if op.endswith("="):
                it.write(st, oloc, nv)
                return ("l", oloc)
            return nv
        if op == "[]" and v.op == "it":
            return ("l", I.L_i(v.args[0], add(v.args[1], V(0))))
        if op in ("==", "!="):
            return itcmp(it, st, op, v, V(0))
        if name == "base":
            return v
        if op == "=":
            it.write(st, oloc, V(0))
            return ("l", oloc)
    if op in ("==", "!=", "<", "<=", ">", ">=", "-") and oloc is None and n == 2 and {V(0).op, V(1).op} & {"it", "mit"}:
        a, b = V(0), V(1)
        if op == "-" and a.op == "it" and b.op == "it":
            return sub(a.args[1], b.args[1])
        if op in ("==", "!="):
            return itcmp(it, st, op, a, b)
        if a.op == "it" and b.op == "it":
            x, y = a.args[1], b.args[1]
            return {"<": lt(x, y, True), "<=": le(x, y, True), ">": lt(y, x, True), ">=": le(y, x, True)}[op]
    # ------- sequences and maps
    if oloc is not None and base in SEQ:
        r = container(it, st, fr, e, base, name, op, oloc, args)
        if r is not NI:
            return r
    if oloc is not None and base == "std::function" and (op == "=" or name == "operator=") and n == 1:
        it.store(st, e, oloc, V(0))
        return ("l", oloc)
    if oloc is not None and base == "std::function" or (oloc is not None and op == "()" and not q.startswith("Eigen::")):
        f = it.read(st, oloc)
        if f.op == "ite":
            r = callite(it, st, e, f, args)
            if r is not None:
                return r
        if f.op == "lam":
            r = it.call_lambda(st, f, args, e)
            if r is not None:
                return r
        if f.op == "fnref" and f.args[1] in it.prog.byid:
            return it.call_fn(st, it.prog.byid[f.args[1]], None, args)
        if f.op == "bind" and f.args[0].op in ("lam",):
            full = [args[b.args[0] - 1] if b.op == "ph" else ("v", b) for b in f.args[1:]]
            r = it.call_lambda(st, f.args[0], full, e)
            if r is not None:
                return r
        if f.op == "bind":
            full = []
            for b in f.args[1:]:
                if b.op == "ph":
                    full.append(args[b.args[0] - 1])
                else:
                    full.append(("v", b))
            g = f.args[0]
            if g.op == "fnref" and g.args[1] in it.prog.byid:
                return it.call_fn(st, it.prog.byid[g.args[1]], None, full)
        hk = it.hooks.get("()")
        if hk is not None:
            r = hk(it, st, fr, e, f, args)
            if r is not NI:
                return r
        return it.opaque_call(st, fr, e, "()", None, args, f)
    if base == "std::function" and op == "bool" or name == "operator bool":
        return tobool(it.read(st, oloc))
    if q == "std::bind":
        out = []
        for i in range(n):
            v = V(i)
            if v.op == "s" and v.args[0] == "init" and v.args[1].op == "var" and "placeholders::_" in str(v.args[1].args[1]):
                v = mk("ph", int(str(v.args[1].args[1]).rsplit("_", 1)[1]))
            out.append(v)
        return mk("bind", *out)
    # smart pointers
    if oloc is not None and base in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "__shared_ptr_access"):
        v = it.read(st, oloc)
        if op == "->":
            return v if v.op == "addr" else mk("addr", it.deref(st, v))
        if op == "*":
            it.emit(st, "deref", e, ptr=v)
            return ("l", it.deref(st, v))
        if name == "get":
            return v
        if name == "reset":
            it.write(st, oloc, V(0) if n else NULL)
            return mk("void")
        if op == "=":
            it.write(st, oloc, V(0))
            return ("l", oloc)
    if q in ("std::make_unique", "std::make_shared"):
        return it.opaque_call(st, fr, e, q, oloc, args, None)
    if oloc is not None and base in ("std::pair", "std::tuple", "std::complex", "std::atomic") and op == "=":
        it.write(st, oloc, V(0))
        return ("l", oloc)
    if base.startswith("Eigen"):
        from . import eigen
        r = eigen.call(it, st, fr, e, q, name, op, oloc, args)
        if r is not NI:
            return r
    if op in ("==", "!=") and n + (1 if oloc is not None else 0) == 2:
        a = it.read(st, oloc) if oloc is not None else V(0)
        b = V(n - 1)
        if base.startswith("std") or base == "std":
            r = eq(a, b)
            return r if op == "==" else lnot(r)
    if op == "+" and n == 2 and q == "std::operator+":
        return fn("cat", V(0), V(1))
    if op == "=" and oloc is not None and n == 1:
        # assignment operators without a body here: defaulted or external value types
        it.store(st, e, oloc, V(0))
        return ("l", oloc)
    if op == "<<" and n == 2 and oloc is None:
        return args[0] if args[0][0] == "l" else args[0][1]
    if op == "<<" and oloc is not None and n == 1:
        return ("l", oloc)
    if q in ("std::accumulate", "std::transform", "std::for_each", "std::sort", "std::find_if", "std::copy", "std::fill", "std::find",
             "std::stable_sort", "std::generate", "std::iota", "std::any_of", "std::all_of", "std::none_of", "std::count_if",
             "std::partial_sort", "std::reverse", "std::inner_product", "std::copy_n", "std::fill_n",
             "std::max_element", "std::min_element", "std::remove_if"):
        return algorithm(it, st, fr, e, name, args)
    return NI


def derefit(it, st, e, v):
    loc, pos = v.args
    ty = e.get("q", "")
    if ("Rb_tree" in ty or "_Node" in ty) and pos.op != "fn":
        pos = mk("fn", "entry", pos)
    return I.L_i(loc, pos)


def itcmp(it, st, op, a, b):
    if a.op == "it" and b.op == "it":
        x, y = a.args[1], b.args[1]
        if y.op == "ite":
            x, y = y, x
        if x.op == "ite" and x.args[2] is y and x.args[1].op == "s" and x.args[1].args[0] == "iv" and x.args[0].op == "b" and x.args[0].args[0].op == "exists":
            r = lnot(x.args[0])     # find() result against end()
        else:
            r = eq(a.args[1], b.args[1])
    else:
        m, x = (a, b) if a.op == "mit" else (b, a)
        if m.op == "mit":
            # find() result against end()
            r = lnot(haskey(it.read(st, m.args[0]), m.args[1]))
        else:
            r = eq(a, b)
    return r if op == "==" else lnot(r)


LEFT, RIGHT = mk("s", "left"), mk("s", "right")


def extremum(it, st, e, name, vs):
    """max_element/min_element/remove_if over a whole sequence, with their comparison spelled out on generic elements"""
    a, b = vs[0], vs[1]
    if a.op != "it" or b.op != "it" or a.args[0] is not b.args[0]:
        return None
    v = it.read(st, a.args[0])
    if a.args[1] is not ZERO or b.args[1] is not size(v):
        return None
    if len(vs) == 3:
        c = callite(it, st, e, vs[2], [("v", LEFT)] + ([("v", RIGHT)] if name != "remove_if" else []))
        if c is None:
            return None
        c = tobool(c)
    elif name == "remove_if":
        return None
    else:
        c = lt(LEFT, RIGHT)
    return mk("it", a.args[0], fn(name, v, c))


def algorithm(it, st, fr, e, name, args):
    V = lambda i: it.argv(st, args[i])
    n = len(args)
    vs = [V(i) for i in range(n)]
    if name in ("max_element", "min_element", "remove_if") and n in (2, 3):
        r = extremum(it, st, e, name, vs)
        if r is not None:
            return r
    # run functors once on generic elements so that their effects and events are seen
    its = [v for v in vs if v.op == "it"]
    for v in vs:
        if v.op == "lam" and its:
            f = it.prog.byid.get(v.args[0])
            if f is None:
                continue
            if name in ("for_each", "transform", "accumulate", "find_if", "any_of", "all_of", "none_of", "count_if"):
                lo, hi = its[0].args[1], its[1].args[1] if len(its) > 1 else size(it.read(st, its[0].args[0]))
                iv = mk("s", "iv", len(it.loops), lo, hi, ONE)
                loopd = mk("loop", lo, hi, ONE, len(it.loops))
                it.loopinfo[loopd] = dict(iv=iv, lo=lo, hi=hi, step=1, ln=e["ln"], kind="algo")
                el = ("l", I.L_i(its[0].args[0], iv))
                pre = st.copy()
                it.loops.append(loopd)
                nf = len(st.facts)
                it.assume(st, le(lo, iv, True))
                it.assume(st, lt(iv, hi, True))
                if name == "accumulate":
                    acc = mk("s", "H", len(it.loops) - 1, e["ln"], ("acc",))
                    r = it.call_lambda(st, v, [("v", acc), el], e)
                    r = it.read(st, r[1]) if isinstance(r, tuple) else r
                    res = mk("fold", loopd, vs[2], acc, r)
                elif name == "transform":
                    if len(its) >= 4:
                        j = add(its[2].args[1], sub(iv, lo))
                        r = it.call_lambda(st, v, [el, ("l", I.L_i(its[2].args[0], j))], e)
                    else:
                        r = it.call_lambda(st, v, [el], e)
                    r = it.read(st, r[1]) if isinstance(r, tuple) else r
                    out = vs[3] if len(its) >= 4 and len(vs) > 4 else vs[2]
                    if len(its) >= 4:
                        out = vs[3]
                    res = out
                    if out.op == "it":
                        dst = out.args[0]
                        idx = add(out.args[1], sub(iv, lo))
                        p0 = it.read(pre, dst)
                        it.write(st, dst, mk("mapped", p0, iv, lo, hi, idx, r))
                    elif out.op == "binsert":
                        dst = out.args[0]
                        p0 = it.read(st, dst)
                        it.write(st, dst, seq(parts_of(p0) + [("loop", loopd, (("item", r),))]))
                else:
                    r = it.call_lambda(st, v, [el], e)
                    r = it.read(st, r[1]) if isinstance(r, tuple) else r
                    pr = tobool(r) if r is not None and r.op != "void" else None
                    if name in ("any_of", "all_of", "none_of") and pr is not None:
                        ex = it.exists(loopd, lnot(pr) if name == "all_of" else pr)
                        res = ex if name == "any_of" else lnot(ex)
                    elif name == "find_if" and pr is not None:
                        res = mk("it", its[0].args[0], ite(it.exists(loopd, pr), iv, hi))
                    else:
                        res = fn("algo:" + name, mk("lamres", loopd, r if r is not None else mk("void")), its[0], its[1] if len(its) > 1 else NULL)
                    if name == "for_each":
                        for rr, v1 in list(st.store.items()):
                            v0 = pre.store.get(rr)
                            if v0 is not None and v0 is not v1:
                                if v1.op == "seq" and v1.args[:len(parts_of(v0))] == tuple(parts_of(v0)):
                                    st.store[rr] = seq(parts_of(v0) + [("loop", loopd, tuple(v1.args[len(parts_of(v0)):]))])
                                else:
                                    st.store[rr] = mk("fold", loopd, v0, v0, v1)
                it.loops.pop()
                st.facts = st.facts[:nf]
                return res if res is not None else mk("void")
    if name == "find" and len(its) >= 2 and n == 3:
        lo, hi = its[0].args[1], its[1].args[1]
        iv = mk("s", "iv", len(it.loops), lo, hi, ONE)
        loopd = mk("loop", lo, hi, ONE, len(it.loops))
        it.loopinfo[loopd] = dict(iv=iv, lo=lo, hi=hi, step=1, ln=e["ln"], kind="algo")
        return mk("it", its[0].args[0], ite(it.exists(loopd, eq(it.read(st, I.L_i(its[0].args[0], iv)), vs[2])), iv, hi))
    if name in ("sort", "stable_sort", "reverse", "partial_sort") and its:
        loc = its[0].args[0]
        cmpf = [v for v in vs if v.op in ("lam", "fnref")]
        it.emit(st, "sort", e, loc=loc, val=it.read(st, loc), cmp=cmpf[0] if cmpf else None, args=vs)
        it.write(st, loc, fn("sorted" if name != "reverse" else "reversed", it.read(st, loc), *cmpf))
        return mk("void")
    if name == "copy" and len(its) >= 2 and len(vs) == 3:
        src = it.read(st, its[0].args[0])
        out = vs[2]
        cnt = sub(its[1].args[1], its[0].args[1])
        whole = its[0].args[1] is ZERO and its[1].args[1] is size(src)
        it.emit(st, "copy", e, src=its[0], end=its[1], dst=out)
        if out.op == "it":
            it.write(st, out.args[0], fn("copied", it.read(st, out.args[0]), out.args[1], src, its[0].args[1], cnt))
        elif out.op == "addr" and out.args[0].op in ("Lf", "Li"):
            # into the array of a vector of the linear algebra library
            loc, off = (out.args[0].args[0], out.args[0].args[1]) if out.args[0].op == "Li" else (out.args[0], ZERO)
            if loc.op == "Lf" and loc.args[1] == "<data>":
                iv = mk("s", "iv", "copy%d" % e["ln"], ZERO, cnt, ONE)
                dst = loc.args[0]
                it.write(st, dst, mk("mapped", it.read(st, dst), iv, ZERO, cnt, add(off, iv), sel(src, add(its[0].args[1], iv))))
        elif out.op == "binsert":
            p0 = it.read(st, out.args[0])
            it.write(st, out.args[0], seq(parts_of(p0) + [("all", src) if whole else ("range", src, its[0].args[1], its[1].args[1])]))
        return out
    if name in ("fill", "fill_n") and its:
        loc = its[0].args[0]
        p0 = it.read(st, loc)
        if name == "fill" and its[0].args[1] is ZERO and its[1].args[1] is size(p0):
            it.write(st, loc, seq([("rep", size(p0), vs[2])]))
        else:
            it.write(st, loc, fn("filled", p0, *vs))
        return mk("void")
    if name in ("iota", "generate") and its:
        it.write(st, its[0].args[0], fn(name, it.read(st, its[0].args[0]), *vs[2:]))
        return mk("void")
    return fn("algo:" + name, *[mk("itv", it.read(st, v.args[0]), v.args[1]) if v.op == "it" else v for v in vs])


def mapsize(v):
    """entries of a map: storing under a key may add one"""
    if v.op == "ite":
        return ite(v.args[0], mapsize(v.args[1]), mapsize(v.args[2]))
    return fn("mapsize", v) if v.op in ("astore", "fold", "mapped") else size(v)


def container(it, st, fr, e, base, name, op, oloc, args):
    V = lambda i: it.argv(st, args[i])
    n = len(args)
    v = it.read(st, oloc)
    ismap = base in MAPS
    isset = base in SETS
    if ismap or isset:
        it.mapvals.add(v)
    if name in ("size", "length"):
        return mapsize(v) if ismap or isset else size(v)
    n_ = mapsize(v) if ismap or isset else size(v)
    if name == "empty":
        return eq(n_, ZERO)
    if name in ("begin", "cbegin"):
        return itval(oloc, ZERO)
    if name in ("end", "cend"):
        return itval(oloc, n_)
    if name in ("rbegin", "crbegin"):
        return fn("rit", v, ZERO)
    if name in ("rend", "crend"):
        return fn("rit", v, size(v))
    if name in ("reserve", "shrink_to_fit"):
        if n:
            it.emit(st, "reserve", e, n=V(0))
        return mk("void")
    if name in ("data", "c_str"):
        return mk("addr", oloc)
    if name == "max_size":
        return fn("max_size")
    if ismap or isset:
        if op == "[]" or name == "at":
            k = V(0)
            it.emit(st, "mapidx", e, loc=oloc, key=k, base=v, at=name == "at", node=e)
            if op == "[]" and haskey(v, k) is not TRUE:
                dflt = mk("new", "val") if True else ZERO
                nv = sel(v, k) if haskey(v, k) is not FALSE else None
                if nv is None:
                    t = e.get("t", "")
                    it.write(st, oloc, mk("astore", v, k, ZERO if (I.isint(t) or I.isfloat(t)) else mk("new", t)))
            return ("l", I.L_i(oloc, k))
        if name == "find":
            return mk("mit", oloc, V(0), "set") if isset else mk("mit", oloc, V(0))
        if name == "count":
            return ite(haskey(v, V(0)), ONE, ZERO)
        if name == "contains":
            return haskey(v, V(0))
        if name in ("insert", "emplace", "try_emplace", "emplace_hint", "insert_or_assign"):
            if isset:
                k = V(n - 1)
                it.write(st, oloc, mk("astore", v, k, TRUE))
                it.emit(st, "setinsert", e, loc=oloc, key=k, base=v)
                return rec({"first": mk("mit", oloc, k, "set"), "second": lnot(haskey(v, k))})
            if n >= 2 and name in ("emplace", "try_emplace", "insert_or_assign") and V(0).op != "it":
                k, x = V(0), V(1)
            elif n == 1:
                p = V(0)
                if p.op == "it":
                    return NI
                k, x = fld(p, "first"), fld(p, "second")
            elif n == 2 and V(0).op in ("it", "mit"):
                p = V(1)
                if p.op == "it":
                    # range insert
                    src = it.read(st, V(0).args[0])
                    it.write(st, oloc, fn("inserted", v, src))
                    return mk("void")
                k, x = fld(p, "first"), fld(p, "second")
            else:
                return NI
            hk = haskey(v, k)
            it.emit(st, "mapinsert", e, loc=oloc, key=k, val=x, base=v, overwrite=name == "insert_or_assign")
            if name == "insert_or_assign":
                it.write(st, oloc, mk("astore", v, k, x))
            else:
                it.write(st, oloc, ite(hk, v, mk("astore", v, k, x)))
            return rec({"first": mk("mit", oloc, k), "second": lnot(hk)})
        if name == "erase":
            k = V(0)
            if k.op == "mit":
                k = k.args[1]
            it.emit(st, "maperase", e, loc=oloc, key=k, base=v)
            it.write(st, oloc, fn("erased", v, k))
            return mk("s", "erasedn")
        if name == "clear":
            it.write(st, oloc, EMPTY)
            return mk("void")
        if op == "=":
            it.store(st, e, oloc, V(0))
            return ("l", oloc)
        return NI
    if op == "[]" or name == "at":
        i = V(0)
        it.emit(st, "index", e, loc=oloc, idx=i, base=v, at=name == "at", node=e, n=None)
        return ("l", I.L_i(oloc, i))
    if name == "front":
        it.emit(st, "index", e, loc=oloc, idx=ZERO, base=v, at=False, node=e, n=None)
        return ("l", I.L_i(oloc, ZERO))
    if name in ("back", "top") or (name == "front"):
        if name == "top":
            return ("l", I.L_i(oloc, mk("fn", "top")))
        it.emit(st, "index", e, loc=oloc, idx=sub(size(v), ONE), base=v, at=False, node=e, n=None)
        if v.op == "seq" and v.args and v.args[-1][0] == "item":
            k = sub(size(v), ONE)
            # keep writes precise only when all parts are items
            if not all(p[0] == "item" for p in v.args):
                return v.args[-1][1] if not e.get("lvw") else ("l", I.L_i(oloc, k))
        return ("l", I.L_i(oloc, sub(size(v), ONE)))
    if name in ("push_back", "emplace_back", "push", "emplace") and base != "std::set":
        if n == 1:
            x = V(0)
        elif name.startswith("emplace"):
            x = it.construct(st, elemtype((e.get("o") or {}).get("t", "")), args) if n else None
            if x is None:
                x = rec({"first": V(0), "second": V(1)}) if n == 2 and "pair" in e.get("f", "") else fn("emplace", *[V(i) for i in range(n)])
        else:
            return NI
        it.emit(st, "push", e, loc=oloc, val=x, base=v)
        it.write(st, oloc, seq(parts_of(fresh_seq(v)) + [("item", x)]))
        if name == "emplace_back":
            return mk("void")
        return mk("void")
    if name in ("pop_back", "pop", "pop_front"):
        it.emit(st, "pop", e, loc=oloc, base=v)
        if name == "pop_back" and v.op == "seq" and v.args and v.args[-1][0] == "item":
            it.write(st, oloc, seq(v.args[:-1]))
        else:
            it.write(st, oloc, fn(name, v))
        return mk("void")
    if name == "clear":
        it.write(st, oloc, EMPTY)
        return mk("void")
    if name == "resize":
        it.emit(st, "resize", e, loc=oloc, n=V(0), base=v)
        if n == 1:
            x = None
            et = e.get("f", "")
            fv = mk("zero")
        else:
            fv = V(1)
        if size(fresh_seq(v)) is ZERO:
            it.write(st, oloc, seq([("rep", V(0), fv)]))
        else:
            it.write(st, oloc, fn("resized", v, V(0), fv))
        return mk("void")
    if name == "assign" and n == 2:
        if V(0).op == "it":
            src = it.read(st, V(0).args[0])
            if V(0).args[1] is ZERO and V(1).args[1] is size(src):
                it.write(st, oloc, seq([("all", src)]))
            else:
                it.write(st, oloc, seq([("range", src, V(0).args[1], V(1).args[1])]))
        else:
            it.write(st, oloc, seq([("rep", V(0), V(1))]))
        return mk("void")
    if name == "insert" and n >= 2 and V(0).op == "it":
        pos = V(0).args[1]
        atend = pos is size(v)
        if n == 3 and V(1).op == "it" and V(2).op == "it":
            src = it.read(st, V(1).args[0])
            if V(1).args[1] is ZERO and V(2).args[1] is size(src):
                ins = parts_of(src)
            else:
                ins = [("range", src, V(1).args[1], V(2).args[1])]
        elif n == 2:
            ins = [("item", V(1))]
        elif n == 3:
            ins = [("rep", V(1), V(2))]
        else:
            return NI
        it.emit(st, "insert", e, loc=oloc, atend=atend, parts=ins, base=v, pos=pos)
        if atend:
            it.write(st, oloc, seq(parts_of(fresh_seq(v)) + list(ins)))
        elif pos is ZERO:
            it.write(st, oloc, seq(list(ins) + parts_of(fresh_seq(v))))
        else:
            it.write(st, oloc, fn("inserted_at", v, pos, seq(ins)))
        return itval(oloc, pos)
    if name == "erase":
        it.emit(st, "erase", e, loc=oloc, base=v, args=[V(i) for i in range(n)])
        if n == 2 and V(0).op == "it" and V(1).op == "it" and V(1).args[1] is size(v):
            f = V(0).args[1]
            if f.op == "fn" and f.args[0] == "remove_if" and f.args[1] is v:
                it.write(st, oloc, fn("filtered", v, lnot(f.args[2])))
                return mk("void")
        if base in ("std::vector", "std::deque", "std::list") and n and V(0).op == "it":
            i = V(0).args[1]
            j = V(1).args[1] if n == 2 and V(1).op == "it" else add(i, ONE) if n == 1 else None
            if j is not None:
                it.write(st, oloc, seq([("range", v, ZERO, i), ("range", v, j, size(v))]))
                return itval(oloc, i)
        it.write(st, oloc, fn("erase", v, *[V(i).args[1] if V(i).op == "it" else V(i) for i in range(n)]))
        return mk("s", "it", it.fresh())
    if name == "swap":
        b = V(0)
        it.write(st, args[0][1], v)
        it.write(st, oloc, b)
        return mk("void")
    if op == "=" and n == 1:
        it.store(st, e, oloc, V(0))
        return ("l", oloc)
    if op == "+=" or name == "append":
        x = V(0)
        if base == "std::basic_string":
            if e.get("pt", [""])[0] in ("char",):
                it.write(st, oloc, seq(parts_of(fresh_seq(v)) + [("item", x)]))
            else:
                it.write(st, oloc, seq(parts_of(fresh_seq(v)) + [("all", x)] + [("arg", V(i)) for i in range(1, n)]))
            return ("l", oloc)
    if name == "fill" and n == 1:
        it.write(st, oloc, seq([("rep", size(v), V(0))]))
        return mk("void")
    return NI


def fresh_seq(v):
    if v.op == "new" or v.op == "uninit":
        return EMPTY
    if v.op == "fld" and v.args[0].op == "new":
        # a member of a value-initialised pair
        ty = str(v.args[0].args[0])
        if v.args[1] == "first" and "std::pair<std::vector<" in ty[:40] or v.args[1] == "second" and ty.rstrip("' )").endswith(">>") and ", std::vector<" in ty and ty.count("std::vector<") == 1:
            return EMPTY
    return v


def ctor(it, st, fr, e, args):
    V = lambda i: it.argv(st, args[i])
    n = len(args)
    r = e.get("rec", "")
    t = e.get("t", "")
    if r == "std::pair" and n == 2:
        return rec({"first": V(0), "second": V(1)})
    if r == "std::pair" and n == 1:
        return V(0)
    if r == "std::pair" and n == 0:
        return rec({"first": ZERO, "second": ZERO}) if False else mk("new", t)
    if r == "std::tuple":
        return mk("vec", *[V(i) for i in range(n)])
    if r in ("std::function", "std::unique_ptr", "std::shared_ptr", "std::reference_wrapper", "std::atomic"):
        return V(0) if n else NULL
    if r in ("__gnu_cxx::__normal_iterator", "std::_Rb_tree_const_iterator", "std::_List_const_iterator", "std::_List_iterator",
             "std::__detail::_Node_const_iterator") and n == 1:
        return V(0)
    if r in ("std::queue", "std::priority_queue", "std::stack"):
        if n == 0 or V(0).op in ("lam", "new", "seq", "fnref"):
            return EMPTY
    if r in ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multimap"):
        if n == 0:
            return EMPTY
        if n >= 1 and V(0).op == "vec":
            m = EMPTY
            for p in V(0).args:
                m = mk("astore", m, fld(p, "first"), fld(p, "second")) if r.endswith("map") else mk("astore", m, p, TRUE)
            return m
        return fn("ctor:" + r, *[V(i) for i in range(n)])
    if r in SEQ:
        if n == 0:
            return EMPTY
        a0 = V(0)
        if r == "std::basic_string" and a0.op == "str" and n <= 2:
            return a0
        if a0.op == "vec" and e["a"][0]["k"] in ("il", "init"):
            return seq([("item", x) for x in a0.args])
        if a0.op == "it" and n >= 2 and V(1).op == "it":
            src = it.read(st, a0.args[0])
            if a0.args[1] is ZERO and V(1).args[1] is size(src):
                return seq([("all", src)]) if src.op != "seq" else src
            return seq([("range", src, a0.args[1], V(1).args[1])])
        if n == 1 and a0.op in ("seq",):
            return a0
        pt = e.get("pt", [])
        if pt and (I.isint(pt[0]) or pt[0].endswith("size_type")):
            if n == 1:
                return seq([("rep", a0, mk("zero"))])
            if n == 2 and "allocator" in (pt[1] if len(pt) > 1 else ""):
                return seq([("rep", a0, mk("zero"))])
            return seq([("rep", a0, V(1))])
        return fn("ctor:" + r, *[V(i) for i in range(n)])
    if r.startswith("Eigen"):
        from . import eigen
        return eigen.ctor(it, st, fr, e, r, args)
    if n == 0:
        t2 = t
        return mk("new", t)
    if n == 1 and e.get("triv"):
        return V(0)
    return fn("ctor:" + r, *[V(i) for i in range(n)])
