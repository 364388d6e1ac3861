"""Write properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import catalog as cat  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in cat.P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = list(p["state"])
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]},
                             "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
na = {x[0] for x in cat.NA}
for p in cat.P:
    if p["id"] in na:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --thorough" % p["id"],
                   "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump({"version": 1, "setup_cmd": "/usr/bin/python3 -c \"import sys; assert sys.version_info >= (3, 10)\"", "checks": checks,
               "not_applicable": [{"property": a, "reason": b} for a, b in cat.NA],
               "notes": "Every check is a static analysis of /repo's current source (see DESIGN.md); no code of /repo is executed."}, fh, indent=1)
    fh.write("\n")


# -- DESIGN.md
import ast  # noqa: E402
import glob  # noqa: E402


def strings(pid):
    """EXPLAIN, ASSUME, FLOOR of a property module."""
    with open(os.path.join(HERE, "sa", "props", pid.lower() + ".py"), encoding="utf-8") as f:
        t = ast.parse(f.read())
    return {n.targets[0].id: ast.literal_eval(n.value) for n in t.body
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("EXPLAIN", "ASSUME", "FLOOR")}


parts = []
for p in sorted(cat.P, key=lambda x: x["id"]):
    d = strings(p["id"])
    cost = ""
    try:
        with open(os.path.join(HERE, "tools", "cost.json"), encoding="utf-8") as fh:
            c = json.load(fh)[p["id"]]
        cost = " Quick run: %d obligations, %.0f s." % (c[0], max(1, c[1]))
    except (OSError, KeyError):
        pass
    parts.append("### %s: %s\n\n%s\n\n* *How*: %s\n* *Bounds*: %s.%s\n* *Why beyond tests*: %s\n* *Anchors*: %s\n* *Assumes*: %s.\n" % (
        p["id"], p["title"], p["statement"], d["EXPLAIN"], p["text"], cost, p["why"],
        "; ".join("%s (`%s`)" % (m["name"], m["where"]) for m in p["mechanism"]), "; ".join(d.get("ASSUME") or ["nothing beyond section 1"])))
rows = ["| id | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")), key=lambda x: (json.load(open(x, encoding="utf-8"))["property"], x)):
    with open(f, encoding="utf-8") as fh:
        m = json.load(fh)
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
with open(os.path.join(HERE, "tools", "design.md"), encoding="utf-8") as fh:
    t = fh.read()
with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8") as fh:
    fh.write(t.replace("@PROPERTIES@", "\n".join(parts).rstrip()).replace("@SEEDS@", "\n".join(rows)))
print(len(cat.P), "properties", len(checks), "checks")
