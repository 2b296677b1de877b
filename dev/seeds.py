#!/usr/bin/env python3
"""development only: run the check of each planted bug's property against a scratch copy with the bug; writes meta/caught.json"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(s):
    d = os.path.join(V, "seeded", s)
    pid = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=t + "/r")
        r = subprocess.run([sys.executable, V + "/checks/run.py", pid], capture_output=True, text=True, env=dict(os.environ, ARC_REPO=t + "/r"))
        first = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")]
        return s, r.returncode, (first[0].split(" at ")[0][:140] if first else "")
    finally:
        shutil.rmtree(t)


names = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
old = {}
if sys.argv[1:] and os.path.exists(V + "/meta/caught.json"):
    old = json.load(open(V + "/meta/caught.json"))
with ThreadPoolExecutor(4) as ex:
    for s, rc, f in ex.map(one, names):
        old[s] = dict(caught=rc == 1, by=f)
        if rc != 1:
            print(s, "exit", rc)
json.dump(old, open(V + "/meta/caught.json", "w"), indent=1, sort_keys=True)
