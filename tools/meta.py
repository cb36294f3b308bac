"""Writes properties.jsonl and MANIFEST.json from the one list of properties (tools/props_meta.py)."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_meta import PROPS, NA

sys.path.insert(0, ROOT)
import importlib

TECH = ("symbolic execution of the real code (Python functions re-compiled from /repo on every run, executed on SMT terms), "
        "Z3/cvc5 decide each path's obligations; counterexamples replayed on the unmodified code")


def line_of(path, needle):
    with open(os.path.join("/repo", path)) as f:
        for i, l in enumerate(f, 1):
            if needle in l:
                return i
    raise SystemExit("anchor not found: %s in %s" % (needle, path))


out, checks = [], []
for p in PROPS:
    mech = []
    for name, path, needle in p["mech"]:
        path = "highway_env/" + path
        line_of(path, needle)
        mech.append({"name": name, "where": "%s: %s" % (path, needle)})
    files = sorted({"highway_env/" + m[1] for m in p["mech"]})
    rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
           "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
           "anchors": {"files": files, "mechanism": mech, "hook_needed": None}}
    if p.get("observe"):
        rec["anchors"]["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["id"]
    out.append(rec)
    pid = p["id"]
    if pid in NA:
        continue
    mod = os.path.join(ROOT, "props", pid.lower() + ".py")
    if not os.path.exists(mod):
        NA[pid] = "check under construction in this commit"
        continue
    src = open(mod).read()
    bounds = re.search(r"BOUNDS = \((.*?)\)\n\n", src, re.S)
    bounds = eval("(" + bounds.group(1) + ")") if bounds else ""
    cmd = "/opt/venv/bin/python check.py --property %s --tier " % pid
    checks.append({"property": pid, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "technique": TECH,
                   "level": "model_checking",
                   "level_note": "Bounded: " + bounds + ". Floats are read as reals, obligations up to a small margin; "
                   + (p.get("note", "") + " " if p.get("note") else "")
                   + "every feasible path within the bounds is explored and each obligation is decided by a solver; anything a "
                   "solver leaves undecided is printed as UNDECIDED and is outside the claim."})

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for r in out:
        f.write(json.dumps(r) + "\n")
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py",
       "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "No hooks in /repo. All checks share the symbolic executor in symx/ and the driver check.py; harnesses are in props/. "
                "The symbolic run re-reads /repo's sources on every invocation; nothing is cached between runs."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
import jsonschema  # (run with python3-vt)
js = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for r in out:
    jsonschema.validate(r, js)
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(out), "properties,", len(checks), "checks,", len(NA), "not applicable")
