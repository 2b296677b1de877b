import json


class Program:
    def __init__(self):
        self.funcs, self.byid, self.globals, self.records, self.byq, self.recq = [], {}, {}, {}, {}, {}
        self._ov = set()
        self.tus = []

    def load(self, path, name=None):
        d = json.load(open(path))
        self.add(d, name or path)

    def add(self, d, name=""):
        self.tus.append(name)
        for f in d["funcs"]:
            key = f["f"]
            if key in self.byid:
                continue
            # ids are per translation unit: keep frames separate by tagging
            f["tu"] = name
            self.byid[key] = f
            self.funcs.append(f)
            self.byq.setdefault(f["q"], []).append(f)
            for o in f.get("ov", []):
                self._ov.add(o)
        for r in d["records"]:
            if r["t"] not in self.records:
                self.records[r["t"]] = r
                self.recq.setdefault(r["q"], []).append(r)
            for m in r["methods"]:
                for o in m["ov"]:
                    self._ov.add(o)
        for g in d["globals"]:
            self.globals.setdefault(g["q"], g)

    def overridden(self, fid):
        return fid in self._ov

    def fn(self, q, pred=None, ta=None, nparams=None, ptypes=None):
        fs = self.byq.get(q, [])
        out = []
        for f in fs:
            if ta is not None and ta not in f.get("ta", "") and ta not in f.get("rect", ""):
                continue
            if nparams is not None and len(f["params"]) != nparams:
                continue
            if ptypes is not None and not all(p in f["params"][i]["t"] for i, p in enumerate(ptypes) if i < len(f["params"])):
                continue
            if pred is not None and not pred(f):
                continue
            out.append(f)
        return out
