"""Writes DESIGN.md."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
D = os.path.join(V, "tools", "design")
plans = json.load(open(os.path.join(D, "plans.json")))
seeds = json.load(open(os.path.join(D, "seeds.json")))
out = [open(os.path.join(D, "head.md")).read(), "\n## The properties, one by one\n"]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("dv.props." + p["id"].lower())
    q = plans[p["id"]]
    out.append("### %s %s\n\n%s.\n\n* Specified: %s\n* Checked on the specification: %s\n* Conformance: %s\n* Why tests cannot: %s\n* %s\n" % (
        p["id"], p["title"], m.TECHNIQUE, q["spec"], q["design"], q.get("trace", "TraceProg replays recorded sessions") + ". " + m.LEVEL_NOTE, p["why_tests_cant"].rstrip(".") + ".", "Oracle and limits: " + q["limits"]))
rows = ["| bug | property | needs | result |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    meta = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, meta["property"], meta["needs"].replace("|", "\\|"), seeds.get(s, "caught")))
out.append(open(os.path.join(D, "tail.md")).read().replace("SEEDTABLE", "\n".join(rows)))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
