"""Fact extraction from /repo's working tree (cached by content) and the frame every check runs in."""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ARC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANGXX = "/usr/bin/clang++-18"
FLAGS = ["-std=gnu++14", "-include", "cstdint", "-include", "sys/types.h", "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3",
         "-resource-dir=/usr/lib/llvm-18/lib/clang/18"]
STUB = ["-isystem", VERIF + "/stubs"]
# translation units: name -> (source file, extra flags)
TUS = {
    "base64": (REPO + "/src/arc_utilities/base64_helpers.cpp", []),
    "zlib": (REPO + "/src/arc_utilities/zlib_helpers.cpp", []),
    "timing": (REPO + "/src/arc_utilities/timing.cpp", []),
    "fod": (REPO + "/src/arc_utilities/first_order_deformation.cpp", []),
    "totp": (REPO + "/src/arc_utilities/time_optimal_trajectory_parametrization.cpp", STUB),
}
for _f in sorted(glob.glob(VERIF + "/tu/*.cpp")):
    _n = os.path.basename(_f)[:-4]
    _x = list(STUB)
    if "-fopenmp" in open(_f).readline():
        _x = ["-fopenmp"] + _x
    TUS[_n] = (_f, _x)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


class Broken(Exception):
    """the analysis could not be carried out (an error of the check, not a verdict)"""


class lock:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock-" + self.name), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tool():
    os.makedirs(BUILD, exist_ok=True)
    src = VERIF + "/tool/arcdump.cpp"
    key = sha(rd(src))
    out = BUILD + "/arcdump-" + key
    if not os.path.exists(out):
        r = subprocess.run(["bash", VERIF + "/tool/build.sh", out], capture_output=True, text=True)
        if r.returncode:
            raise Broken("fact extractor does not build: " + r.stderr[-2000:])
    return out, key


def repo_sources():
    out = []
    for base in (REPO + "/include", REPO + "/src"):
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith((".hpp", ".h", ".cpp", ".py")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def dump(name):
    src, extra = TUS[name]
    if not os.path.exists(src):
        raise Broken("translation unit %s is missing" % src)
    with lock("tool"):
        t, tk = tool()
    with lock(name):
        stubs = sorted(os.path.join(d, f) for d, _, fs in os.walk(VERIF + "/stubs") for f in fs)
        parts = [tk, name, " ".join(extra)]
        for p in [src] + stubs + [x for x in repo_sources() if not x.endswith(".py")]:
            parts.append(p)
            parts.append(rd(p))
        key = sha(*parts)
        out = "%s/facts/%s-%s.json" % (BUILD, name, key)
        if not os.path.exists(out):
            os.makedirs(BUILD + "/facts", exist_ok=True)
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run([t, tmp, src, REPO + "," + VERIF + "/tu", "--"] + FLAGS + extra, capture_output=True, text=True)
            if not os.path.exists(tmp):
                raise Broken("fact extraction failed on %s: %s" % (src, (r.stderr or r.stdout)[-3000:]))
            d = json.load(open(tmp))
            if d["errors"]:
                os.unlink(tmp)
                raise Broken("%s does not compile (%d errors): %s" % (src, d["errors"] if isinstance(d["errors"], int) else len(d["errors"]),
                                                                     (r.stderr or r.stdout)[-3000:]))
            for old in glob.glob("%s/facts/%s-*.json" % (BUILD, name)):
                if time.time() - os.path.getmtime(old) > 3600:
                    os.unlink(old)
            os.rename(tmp, out)
        return out


def program(*names):
    from .prog import Program
    p = Program()
    for n in names:
        p.load(dump(n), n)
    return p


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = []
        self.viol = []
        self.functions = {}
        self.rules = []
        self.notes = []
        self.tus = []
        self.positive = []

    def program(self, *names):
        self.tus += [n for n in names if n not in self.tus]
        return program(*names)

    def rule(self, text):
        self.rules.append(text)

    def analysed(self, fn, what=""):
        if isinstance(fn, dict):
            k = "%s (%s:%s)" % (fn["q"] + (("<" + fn["ta"] + ">") if fn.get("ta") else ""), rel(fn["file"]), fn["ln"])
        else:
            k = str(fn)
        self.functions[k] = self.functions.get(k, 0) + 1

    def ob(self, key, ok, where, msg="", detail=""):
        """one obligation: key names the construct stably (no line numbers), where is the location for people"""
        self.obl.append((key, bool(ok), where))
        if not ok:
            self.viol.append(dict(key=key, where=where, msg=msg, detail=detail))
        return ok

    def control(self, name, ok):
        """a positive control: the rule must match its built-in example on every run"""
        self.positive.append((name, bool(ok)))
        if not ok:
            raise Broken("positive control failed: " + name)

    def need(self, cond, what):
        if not cond:
            raise Broken("anchor vanished or rule matched nothing: " + what)
        return cond

    def minimum(self, n, what="obligations"):
        if len(self.obl) < n:
            raise Broken("only %d %s were found, at least %d were confirmed by hand" % (len(self.obl), what, n))


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


def known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main(pid, mod, level="other"):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier)
    err = None
    sys.setrecursionlimit(20000)
    try:
        mod.run(ctx)
        if not ctx.obl:
            raise Broken("no obligation was generated")
    except Broken as e:
        err = str(e)
    kf = {f["key"]: f for f in known().get("findings", []) if f["property"] == pid}
    new, seen = [], []
    for v in ctx.viol:
        if v["key"] in kf:
            if v["key"] not in [s["key"] for s in seen]:
                seen.append(v)
        else:
            new.append(v)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ok = [o for o in ctx.obl if o[1]]
    ev = dict(property=pid, tier=tier, seed=seed, level=level,
              coverage=dict(explanation="Static analysis of the resolved program extracted from /repo on this run. " + " ".join(ctx.rules),
                            rule=" ".join(ctx.rules), translation_units=ctx.tus, functions_analysed=len(ctx.functions),
                            functions=sorted(ctx.functions)[:400], obligations=len(ctx.obl), discharged=len(ok),
                            samples=["%s @ %s: %s" % (k, w, "holds" if o else "VIOLATED") for k, o, w in ctx.obl[:400]],
                            known_findings=[v["key"] for v in seen], positive_controls=["%s: matched" % n for n, o in ctx.positive if o],
                            notes=ctx.notes[:50]),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if err:
        ev["coverage"]["error"] = err
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d functions analysed, %.1fs" % (pid, len(ctx.obl), len(ok), len(ctx.functions), time.time() - t0))
    for v in seen:
        print("KNOWN-FINDING: property=%s %s (%s) %s" % (pid, v["key"], v["where"], kf[v["key"]].get("what", v["msg"])))
    if new:
        rp = "%s/evidence/%s-replay.txt" % (VERIF, pid)
        with open(rp, "w") as f:
            f.write("property %s\nreplay: cd /verif && python3 checks/run.py %s\n\n" % (pid, pid))
            for v in new:
                f.write("%s\n  at %s\n  %s\n  %s\n\n" % (v["key"], v["where"], v["msg"], v["detail"]))
        for v in new[:20]:
            print("  %s at %s: %s %s" % (v["key"], v["where"], v["msg"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, err))
        return 2
    return 0
