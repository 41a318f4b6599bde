"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(V, "dv", "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "No check built yet (work in progress)."})
        continue
    m = importlib.import_module("dv.props." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py --property %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py --property %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": m.TECHNIQUE,
        "level": getattr(m, "LEVEL", "model_checking"),
        "level_note": m.LEVEL_NOTE,
    })
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
commits = [x.split()[0] for x in hook.splitlines() if " verification hook" in x]
out = {
    "version": 1,
    "setup_cmd": "python3 -B -m dv.build",
    "hooks": {
        "guard": "cfg(dune_verif)",
        "enable": "RUSTFLAGS='--cfg dune_verif' DUNE_VERIF_HARNESS=/verif/harness/serve.rs CARGO_TARGET_DIR=/verif/target cargo build --offline --bin dunesh",
        "source_commits": commits,
    },
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
