"""case splitting and entailment helpers shared by the checks"""
from engine import interp as I
from engine.terms import *


def pushes(parts, pc=(), loops=()):
    """(kind, term, conditions, loops) for every part of a queue update"""
    for p in parts:
        if p[0] == "item":
            yield "item", p[1], list(pc), list(loops)
        elif p[0] == "alt":
            yield from pushes(p[2], list(pc) + [p[1]], loops)
            yield from pushes(p[3], list(pc) + [lnot(p[1])], loops)
        elif p[0] == "loop":
            yield from pushes(p[2], pc, list(loops) + [p[1]])
        else:
            yield p[0], (p[1] if len(p) > 1 else None), list(pc), list(loops)


def atoms(fs):
    out = []
    for f in fs:
        for c in conj(f):
            if c not in out:
                out.append(c)
    return out


def outer(t):
    """subterms that are not inside the body of a loop (whose conditions are about each of its rounds)"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            stack.extend(x.args[:2] if x.op == "fold" else x.args[:1] if x.op == "mapped" else x.args)
    return seen


def dunder(x, c):
    """x with every conditional inside it that c decides resolved"""
    m = {}
    for t in outer(x):
        if t.op == "ite":
            r = under(t, c)
            if r is not t:
                m[t] = r
    return subst(under(x, c), m) if m else under(x, c)


def splits(fs, depth=8):
    """disjunctive cases of a list of facts; each case is a consistent-looking list of atoms simplified by one another"""
    fs = atoms(fs)
    for _ in range(4):
        nf = []
        for i, f in enumerate(fs):
            if f.op in ("or", "ite") or any(s.op == "ite" for s in outer(f)):
                g = f
                for j, x in enumerate(fs):
                    if j != i:
                        g = dunder(g, x)
                        if g.op == "or":
                            g = lor(*[d for d in g.args if d is not x and d is not lnot(x)]) if x not in g.args else TRUE
                f = g
            nf.append(f)
        nf = atoms(nf)
        if nf == fs:
            break
        fs = nf
    if FALSE in fs:
        return
    fs = [f for f in fs if f is not TRUE]
    if any(lnot(f) in fs for f in fs):
        return
    c = None
    for f in fs:
        if f.op == "or":
            c = f
            break
    if c is not None and depth:
        rest = [f for f in fs if f is not c]
        for i, d in enumerate(c.args):
            yield from splits(rest + [lnot(x) for x in c.args[:i]] + [d], depth - 1)
        return
    for f in fs:
        for s in outer(f):
            if s.op == "ite" and depth:
                yield from splits([dunder(x, s.args[0]) for x in fs] + [s.args[0]], depth - 1)
                yield from splits([dunder(x, lnot(s.args[0])) for x in fs] + [lnot(s.args[0])], depth - 1)
                return
    yield fs


def holds(fs, goal):
    """every conjunct of goal follows from fs"""
    for c in conj(goal):
        if c is TRUE or c in fs:
            continue
        if c.op == "or" and any(holds(fs, d) for d in c.args):
            continue
        if entails(fs, c):
            continue
        return False
    return True


def contra(fs):
    """no state meets all of fs"""
    if entails(fs, FALSE):
        return True
    return any(f.op == "not" and f.args[0].op == "eq" and entails([g for g in fs if g is not f], f.args[0]) for f in fs)


def proved(fs, goal):
    return all(holds(s, goal) or contra(s) for s in splits(fs))


def cases(ts, conds=()):
    """the values ts case by case (conditionals at the top of each)"""
    for t in ts:
        if t.op == "ite":
            c = t.args[0]
            yield from cases([under(x, c) for x in ts], list(conds) + [c])
            yield from cases([under(x, lnot(c)) for x in ts], list(conds) + [lnot(c)])
            return
    yield list(ts), list(conds)


class Acc:
    """x.getter() as a term, whatever the private fields are called"""

    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.memo = {}

    def __call__(self, x, cls, getter):
        k = (cls, getter)
        if k not in self.memo:
            fs = [f for f in self.prog.funcs if f["q"] == cls + "::" + getter and not f["params"]]
            self.ctx.need(fs, "accessor %s::%s" % k)
            st = I.State()
            o = mk("s", "obj", cls)
            st.store[mk("var", "this")] = o
            it = I.Interp(self.prog)
            it.run(fs[0], st=st)
            self.memo[k] = (o, it.result)
        o, r = self.memo[k]
        return subst(r, {o: x})
