from engine import layout as L
from engine.terms import *
from . import codec

ASSUMPTIONS = ["the analysed host is little endian (the resolved byte-swap builtins are those of x86-64)"]
W = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "float": 4, "double": 8}


def wire(n, v):
    return v if n == 1 else L.bsw(str(8 * n), v)


def run(ctx):
    ctx.rule("Value numbering of every network-order codec: the bytes written for a scalar of n bytes are the n-byte swap of the value (n > 1) or the value "
             "itself (n = 1), the value read is the n-byte swap of the n raw bytes, and element counts go over the wire as swapped 8-byte integers.")
    prog = ctx.program("ser")
    ps = [p for p in codec.pairs(prog) if "Network" in p[1]["q"]]
    codec.expected(ctx, ps, ["arc_utilities::SerializeNetwork" + n for n in ("FixedSizePOD", "Vector", "Map", "Pair", "String")])
    for label, w, r, me in ps:
        ctx.analysed(w)
        ctx.analysed(r)
        A, B = L.run_writer(prog, w), L.run_reader(prog, r)
        parts = L.parts_of(A["out"])[1:]
        reads = [e for e in B["events"] if e.kind == "rawread" and e.d.get("f") is None]
        if w["q"].endswith("FixedSizePOD"):
            n = W[codec.value_type(w)]
            ok = len(parts) == 1 and parts[0][0] == "bytes" and parts[0][2] is wire(n, L.X) and parts[0][1] is num(n)
            ctx.ob(label + ": written big endian", ok, codec.where(w), "writes %s" % show(parts[0])[:200] if parts else "writes nothing")
            ok = len(reads) == 1 and B["obj"] is wire(n, reads[0].val) and reads[0].n is num(n)
            ctx.ob(label + ": read as big endian", ok, codec.where(r), "value is %s" % show(B["obj"])[:200])
        elif not w["q"].endswith("Pair"):
            ok = parts and parts[0][0] == "bytes" and parts[0][2] is wire(8, size(L.X)) and parts[0][1] is num(8)
            ctx.ob(label + ": count written big endian", ok, codec.where(w), "writes %s" % show(parts[0])[:200] if parts else "writes nothing")
            loops = {x for e in B["events"] if e.kind == "rawread" for x in e.loops}
            ok = len(loops) == 1 and reads and list(loops)[0].args[0] is ZERO and list(loops)[0].args[1] is wire(8, reads[0].val)
            ctx.ob(label + ": count read as big endian", ok, codec.where(r), "loops are %s" % [show(x)[:100] for x in loops])
    ctx.minimum(26)
