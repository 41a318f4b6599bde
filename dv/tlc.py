"""Runs TLC on a module of /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .build import VERIF, ToolError

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Result:
    def __init__(self):
        self.generated = self.distinct = 0
        self.notes = []      # printed records: (kind, dict)
        self.violation = None
        self.output = ""


def run(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap="8g", stack="256m"):
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e["LC_ALL"] = "C.UTF-8"
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack,
               "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8",
               "-Dtlc2.tool.impl.Tool.cdot=true", "-Djava.io.tmpdir=" + meta,
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"]
        cmd += list(extra) + [module + ".tla"]
        out = os.path.join(meta, "out.txt")
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = None
        r = Result()
        with open(out, encoding="utf-8", errors="replace") as f:
            lines = f.read().split("\n")
        rest = []
        for line in lines:
            m = re.match(r'^"(MISMATCH|NOTE|SKIP|BEHAVIOUR) (.*)"$', line)
            if m:
                body = json.loads(line, strict=False)
                kind, _, text = body.partition(" ")
                r.notes.append((kind, json.loads(text, strict=False)))
            else:
                rest.append(line)
            m = re.match(r"^(\d+) states generated, (\d+) distinct states found", line)
            if m:
                r.generated, r.distinct = int(m.group(1)), int(m.group(2))
        seen, short = set(), []
        for line in rest:
            if line.strip() and line not in seen and not re.match(r"^(Parsing file|Semantic processing|Semantic errors)", line):
                seen.add(line)
                short.append(line[:400])
        r.output = "\n".join(short[:45] + ["..."] + short[-15:] if len(short) > 60 else short)
        r.rc = rc
        if rc is None:
            raise ToolError("TLC timed out on %s\n%s" % (module, r.output[-2000:]))
        if rc in (12, 13):
            r.violation = r.output
        elif rc != 0:
            raise ToolError("TLC failed (%s) on %s\n%s" % (rc, module, r.output[-6000:]))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)
