#!/usr/bin/env python3
"""Writes DESIGN.md (run with /opt/venv/bin/python -m tools... or ./tools/gen_design.sh)."""
import importlib
import json
import os
import sys
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "-1")
import vp.engine  # noqa: E402,F401  (z3)
import vp.run  # noqa: E402,F401  (puts the repository on the path)


def main():
    out = [open(os.path.join(V, "tools", "design_head.md")).read()]
    props = [json.loads(line) for line in open(os.path.join(V, "properties.jsonl"))]
    out.append("## 3. Properties\n\nOracle and deciding step are the same for all: definition over "
               "the symbolic inputs, z3 verdict per path.\n")
    for p in props:
        m = importlib.import_module("vp.props." + p["id"].lower())
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append(textwrap.fill(p["statement"], 100) + "\n")
        out.append("Anchors: " + "; ".join(x["where"] for x in p["anchors"]["mechanism"]) + "\n")
        for h in m.HARNESSES:
            doc = (h.fn.__doc__ or "").strip().split("\n")[0]
            out.append("* `%s`%s - bounds: %s" % (h.name, " (%s)" % doc if doc else "",
                                                  h.bounds or "all"))
        if assumptions(m):
            out.append("\nAssumed / outside the claim:")
            for a in assumptions(m):
                out.append("* " + a)
        out.append("")
    k = json.load(open(os.path.join(V, "known_findings.json")))
    out.append("## 4. Defects found on the pinned commit\n\nAll repaired by `fix:` commits in /repo "
               "(known_findings.json, `fixed`); the checks report each again if it returns.\n")
    out += ["* " + f.replace("fixed: property=", "") for f in k["fixed"]]
    out.append("\nKnown and not repaired (%d):\n" % len(k["known"]))
    out += ["* " + json.dumps(f) for f in k["known"]]
    notes = os.path.join(V, "tools", "design_tail.md")
    out.append("\n## 5. Planted bugs\n\nEach lives in seeded/<id> or, to keep vcheck short, in "
               "planted/<id>; all pass the stable tests. "
               "`caught by` is the result of running the checks on them.\n")
    f = os.path.join(V, "seeded_results.json")
    res = json.load(open(f)) if os.path.exists(f) else {}
    out.append("| id | property | needs | caught by |\n|---|---|---|---|")
    for where in ("seeded", "planted"):
        for d in sorted(os.listdir(os.path.join(V, where))):
            q = json.load(open(os.path.join(V, where, d, "meta.json")))
            out.append("| %s | %s | %s | %s |" % (d, q["property"], q["needs"].replace("|", "/"),
                                                  res.get(d, "?")))
    if os.path.exists(notes):
        out.append("\n" + open(notes).read())
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")


def assumptions(m):
    return list(getattr(m, "ASSUMPTIONS", []))


main()
