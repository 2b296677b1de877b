#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json:  python3 meta/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "include/arc_utilities/"
S = "src/arc_utilities/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=(), na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None))
    P.append((d, technique, note, na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "list.py")).read())

if __name__ == "__main__":
    with open(V + "/properties.jsonl", "w") as f:
        for d, *_ in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    man = dict(version=1, setup_cmd="python3 checks/run.py setup",
               hooks=dict(guard="ARC_VERIF_HOOKS", enable="no hooks are needed: the checks read the unmodified sources", source_commits=[]),
               checks=[], not_applicable=[],
               notes="All checks are static: a libTooling extractor (tool/arcdump.cpp) and a Python-ast front end produce one IR, engine/ interprets it "
                     "abstractly (value numbering, facts, no execution, no solver). See DESIGN.md.")
    for d, t, n, na in P:
        if na is None and not os.path.exists(V + "/checks/%s.py" % d["id"].lower()):
            na = "check not built yet"
        if na:
            man["not_applicable"].append(dict(property=d["id"], reason=na))
        else:
            c = "python3 checks/run.py %s" % d["id"]
            man["checks"].append(dict(property=d["id"], quick_cmd=c, thorough_cmd=c + " --thorough", technique=t, level="other", level_note=n))
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(P), "properties,", len(man["checks"]), "claimed")
    import ast, glob
    out = []
    for d, t, n, na in P:
        i = d["id"]
        f = V + "/checks/%s.py" % i.lower()
        out.append("### %s %s\n" % (i, d["title"]))
        if na or not os.path.exists(f):
            out.append("Not applicable: %s\n" % (na or "check not built yet"))
            continue
        m = ast.parse(open(f).read())
        ass = [ast.literal_eval(x.value) for x in m.body if isinstance(x, ast.Assign) and getattr(x.targets[0], "id", "") == "ASSUMPTIONS"]
        rules = [c.args[0].value for c in ast.walk(m) if isinstance(c, ast.Call) and getattr(c.func, "attr", "") == "rule" and c.args and isinstance(c.args[0], ast.Constant)]
        doc = ast.get_docstring(m)
        out.append("- Decided by: %s." % t)
        out.append("- Rule (the oracle): %s" % " ".join(rules))
        if doc:
            out.append("- Check: `checks/%s.py` - %s" % (i.lower(), " ".join(doc.split())))
        out.append("- Analysed: %s." % "; ".join("%s (%s)" % (a["name"], a["where"]) for a in d["anchors"]["mechanism"]))
        out.append("- Bounds: none on inputs (%s). %s" % (d["quantifier"]["text"], n))
        if ass and ass[0]:
            out.append("- Assumes: %s." % "; ".join(ass[0]))
        out.append("- Why tests cannot: %s" % d["why_tests_cant"])
        fixed = [x for x in json.load(open(V + "/known_findings.json"))["fixed"] if "property=%s " % i in x]
        for x in fixed:
            out.append("- Defect found and repaired: %s." % x.split(" ", 2)[2])
        out.append("")
    out.append("## Planted bugs\n\nEach was written from the property's text; `dev/seeds.py` runs the check of its property against a scratch copy with the bug.\n")
    out.append("| Bug | Property | What it breaks | Caught, by obligation |\n|---|---|---|---|")
    caught = json.load(open(V + "/meta/caught.json")) if os.path.exists(V + "/meta/caught.json") else {}
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        k = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        c = caught.get(k, {})
        out.append("| %s | %s | %s | %s |" % (k, d["property"], d["what_it_breaks"].replace("|", "/"), ("yes: " + c.get("by", "").replace("|", "/")) if c.get("caught") else "no" if c else "not run yet"))
    des = open(V + "/DESIGN.md").read().split("<!-- generated by meta/props.py -->")[0]
    open(V + "/DESIGN.md", "w").write(des + "<!-- generated by meta/props.py -->\n\n" + "\n".join(out) + "\n")
