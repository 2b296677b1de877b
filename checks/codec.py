"""shared by S01/S02/S03: discovers serializer/deserializer pairs and runs the layout domain over both sides"""
from engine import layout as L
from engine.terms import *
from engine.driver import rel


def where(fn):
    return "%s:%s" % (rel(fn["file"]), fn["ln"])


def plain(t):
    return t.replace("const ", "").replace("&", "").replace("struct ", "").replace("class ", "").strip()


def partner(q):
    h, _, n = q.rpartition("::")
    if n.startswith("Serialize") and not n.startswith("Serialized"):
        return h + "::Deserialize" + n[len("Serialize"):]
    return None


def value_type(fn):
    for p in fn["params"]:
        if "std::vector<unsigned char" in p["t"] and not p["t"].startswith("const"):
            continue
        if "std::function" in p["t"]:
            continue
        return plain(p["t"])
    return None


def is_writer(fn):
    return any("std::vector<unsigned char" in p["t"] and not p["t"].startswith("const") for p in fn["params"]) and "unsigned long" in fn["ret"]


def is_reader(fn):
    return any("std::vector<unsigned char" in p["t"] and p["t"].startswith("const") for p in fn["params"]) and \
        (plain(fn["ret"]).startswith("std::pair<") or "unsigned long" in fn["ret"])


def pairs(prog):
    """[(label, writer, reader, self?)]"""
    out = []
    for fn in prog.funcs:
        if fn.get("dflt") or not fn.get("body"):
            continue
        pq = partner(fn["q"])
        if not pq or not is_writer(fn):
            continue
        vt = value_type(fn)
        me = None
        for r in prog.fn(pq):
            if not is_reader(r) or not r.get("body"):
                continue
            rt = plain(r["ret"])
            if vt is None:
                if not rt.startswith("std::pair<") and (fn.get("rec") == r.get("rec")):
                    me = r
            elif rt.startswith("std::pair<") and plain(L.targs(rt)[0]) == vt:
                me = r
        if me is not None:
            out.append((fn["q"].replace("arc_utilities::", "") + (" of " + vt if vt else ""), fn, me, vt is None))
    return out


def expected(ctx, ps, names):
    have = {p[1]["q"] for p in ps}
    for n in names:
        ctx.need(n in have, "no serializer/deserializer pair for " + n)
