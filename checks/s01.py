from engine import layout as L
from engine.terms import *
from . import codec

ASSUMPTIONS = ["user supplied element codecs are deterministic, append what they report and read back what they wrote (the layout is parametric in them)",
               "buffer sizes and offsets stay below 2^64", "asserts are enabled, as in the repository's build"]

BASIC = ["arc_utilities::Serialize" + n for n in ("FixedSizePOD", "Vector", "VectorLike", "Map", "Pair", "String", "NetworkFixedSizePOD",
                                                 "NetworkVector", "NetworkMap", "NetworkPair", "NetworkString", "Eigen")] + \
        ["arc_dijkstras::GraphEdge::Serialize", "arc_dijkstras::GraphNode::Serialize", "arc_dijkstras::Graph::Serialize",
         "VoxelGrid::VoxelGrid::Serialize", "VoxelGrid::VoxelGrid::SerializeSelf"]


def run(ctx):
    ctx.rule("For every serializer/deserializer pair the bytes appended by the writer and the reads made by the reader are computed as symbolic "
             "layouts and aligned: every written part must be read at the same position with the same length, the rebuilt value must be the "
             "original field by field, and both reported byte counts must equal the layout's total length.")
    prog = ctx.program("ser")
    ps = codec.pairs(prog)
    codec.expected(ctx, ps, BASIC)
    for label, w, r, me in ps:
        pair(ctx, prog, label, w, r, me)
    for f in prog.fn("arc_utilities::SerializedSizeEigen"):
        size_of(ctx, prog, f, ps)
    ctx.minimum(120)


def pair(ctx, prog, label, w, r, me):
    ctx.analysed(w)
    ctx.analysed(r)
    W = L.run_writer(prog, w, this=me)
    R = L.run_reader(prog, r, this=me)
    at = codec.where(r)
    try:
        S, n, sb = L.match(W, R)
    except L.Mismatch as e:
        ctx.ob(label + ": layout", False, at, "reader and writer disagree: %s" % e)
        return
    ctx.ob(label + ": layout", True, at)
    ctx.ob(label + ": bytes reported by the writer", sub(L.cnt(W["ret"]), n) is ZERO, codec.where(w),
           "reports %s bytes, writes %s" % (show(W["ret"])[:200], show(n)[:200]))
    ctx.ob(label + ": bytes reported by the reader", sub(sb(R["size"]), n) is ZERO, at,
           "reports %s bytes, reads %s" % (show(sb(R["size"]))[:200], show(n)[:200]))
    t = codec.value_type(w) or w.get("rect") or w.get("rec")
    m = L.same(prog, sb(R["obj"]), L.X, t)
    ctx.ob(label + ": rebuilt value", m is None, at, m or "")


def size_of(ctx, prog, f, ps):
    t = codec.value_type(f)
    for label, w, r, me in ps:
        if w["q"] == "arc_utilities::SerializeEigen" and codec.value_type(w) == t:
            from engine import interp as I
            W = L.run_writer(prog, w)
            lay = L.Layout(prog)
            st = I.State()
            st.store[mk("var", "obj")] = L.X
            ret = lay.it.run(f, args=[("l", I.L_root(mk("var", "obj")))], st=st)
            ctx.analysed(f)
            ctx.ob("SerializedSizeEigen of " + t, sub(L.cnt(ret), L.cnt(W["ret"])) is ZERO, codec.where(f),
                   "predicts %s, serializer writes %s" % (show(ret)[:200], show(W["ret"])[:200]))
