"""What every check shares: scratch space, recording, judging, reporting."""
import importlib
import json
import os
import random
import re
import shutil
import sys
import time
import traceback

from . import build, pool, tlc
from .build import VERIF, ToolError

FINDINGS = os.path.join(VERIF, "known_findings.txt")
# Characters beyond the basic plane, and what stands for them in TLC (tools/mkuni.py).
INTO = str.maketrans({"😀": "\ue000", "𐐀": "\ue001", "𐐨": "\ue002"})
with open(os.path.join(VERIF, "spec", "uni.json"), encoding="utf-8") as f:
    KNOWN = {chr(p[1]) if p[1] < 128 else p[0] for p in json.load(f)["order"]}


class Unknown(dict):
    """What the implementation should never print stands out in what it printed."""

    def __missing__(self, c):
        return chr(c) if chr(c) in KNOWN else "\ufffd"


SEEN = Unknown(INTO)


def written(c):
    """A recorded case as TLC gets it."""
    given = json.dumps([c.get("progs"), c.get("text"), c.get("tree"), c.get("lines")], ensure_ascii=False).translate(INTO)
    if not set(given) <= KNOWN:
        raise ToolError("characters the specification does not know: %r" % sorted(set(given) - KNOWN))
    return json.dumps({k: v for k, v in c.items() if not k.startswith("_")}, ensure_ascii=False).translate(SEEN)


OUT = os.environ.get("DV_OUT") or VERIF      # where evidence and replay files go


def load_findings(pid):
    found = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", line)
                if m and m.group(1) == pid:
                    found[m.group(2)] = m.group(3)
    return found


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s/%d" % (pid, tier if tier == "thorough" else "quick", seed))
        self.scratch = pool.Scratch()
        self._pool = None
        self.t0 = time.time()
        self.mismatches = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "models": {}, "outside_model": 0}
        self.assumptions = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    @property
    def pool(self):
        if self._pool is None:
            self._pool = pool.Pool(self.scratch)
        return self._pool

    def log(self, text):
        print("[%6.1fs] %s" % (self.elapsed(), text), flush=True)

    # -- recording ---------------------------------------------------------
    def ask(self, reqs, timeout=60):
        return self.pool.map(reqs, timeout)

    # -- judging -----------------------------------------------------------
    def judge(self, module, cases, what, steps=lambda c: 1, env=None, batch=None, show=None,
              max_skip=0.5, timeout=800):
        """Has TLC step the specification through every recorded case.

        A case is a behaviour of steps(case) steps.  TLC prints a MISMATCH
        for every step whose observation the specification does not allow and
        a SKIP for every one that is outside its domain.  The number of
        states shows that every step was taken."""
        if not cases:
            raise ToolError("no cases for " + what)
        batch = batch or 40000
        skipped = 0
        for start in range(0, len(cases), batch):
            part = cases[start:start + batch]
            path = os.path.join(self.scratch.path, "trace-%s-%d.ndjson" % (module, start))
            with open(path, "w", encoding="utf-8") as f:
                for c in part:
                    f.write(written(c))
                    f.write("\n")
            e = {"TRACE": path}
            e.update(env or {})
            r = tlc.run(module, env=e, timeout=timeout)
            os.remove(path)
            if r.violation:
                raise ToolError("the specification is inconsistent\n" + r.violation[-4000:])
            want = sum(1 + steps(c) for c in part)
            if r.distinct != want:
                raise ToolError("%s: %d states, expected %d\n%s"
                                % (what, r.distinct, want, r.output[-3000:]))
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            for kind, note in r.notes:
                c = part[note["i"] - 1]
                if kind == "MISMATCH":
                    self.mismatch(what, c, note.get("want"), note.get("l"), note)
                elif kind == "SKIP":
                    skipped += 1
        total = sum(steps(c) for c in cases)
        self.cov["outside_model"] += skipped
        if skipped > max_skip * total and not self.mismatches:
            raise ToolError("%s: %d of %d steps outside the model" % (what, skipped, total))
        self.cov["traces_validated_against_impl"] += len(cases)
        self.cov["models"].setdefault(what, 0)
        self.cov["models"][what] += total - skipped
        rng = random.Random(self.seed)
        for c in rng.sample(cases, min(3, len(cases))):
            s = json.dumps(show(c) if show else {k: v for k, v in c.items() if not k.startswith("_")})
            self.cov["samples"].append({"check": what, "case": s[:600]})
        self.log("%s: %d traces (%d steps, %d outside the model), %d mismatches so far"
                 % (what, len(cases), total, skipped, len(self.mismatches)))

    def model_check(self, module, cfg=None, what=None, env=None, timeout=600, workers=8, at_least=1, extra=()):
        """Exhaustive TLC run of a design model; a violation is an error of the specification."""
        r = tlc.run(module, cfg=cfg, env=env, timeout=timeout, workers=workers, extra=extra)
        if r.violation:
            raise ToolError("the model violates its own properties\n" + r.violation[-5000:])
        if r.distinct < at_least:
            raise ToolError("%s explored only %d states" % (module, r.distinct))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["models"]["TLC " + (what or cfg or module)] = r.distinct
        self.log("TLC %s: %d distinct states" % (what or cfg or module, r.distinct))
        return r

    def laws(self, names, longest, what):
        """Laws of the evaluator (spec/DesignEval) in all states of histories up to a length."""
        cfg = os.path.join(self.scratch.path, "laws")
        with open(cfg + ".cfg", "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS Longest = %d Laws = {%s}\nINVARIANT AllHold\nVIEW View\nCHECK_DEADLOCK FALSE\n"
                    % (longest, ", ".join('"%s"' % n for n in names.split())))
        self.model_check("DesignEval", cfg=cfg, what=what, at_least=10)

    def mismatch(self, what, case, want, step=None, note=None):
        self.mismatches.append({"what": what, "case": case, "want": want, "step": step,
                                "key": (note or {}).get("key") or case.get("key")})

    # -- reporting ---------------------------------------------------------
    def finish(self, level):
        findings = load_findings(self.pid)
        seen, new = set(), []
        for m in self.mismatches:
            if m["key"] in findings:
                seen.add(m["key"])
            else:
                new.append(m)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, findings[k]))
        rdir = os.path.join(OUT, "replay", self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        for i, m in enumerate(new[:int(os.environ.get("DV_SHOW", "3"))]):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%d.json" % i)
            with open(path, "w") as f:
                json.dump({"property": self.pid, **m}, f, indent=1)
            print("  %s step %s: %s" % (m["what"], m["step"], json.dumps(m["case"])[:700]))
            print("     specification: %s" % json.dumps(m["want"])[:500])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if len(new) > 3:
            print("  ... and %d more" % (len(new) - 3))
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(self.elapsed(), 1), "violations": len(new)}
        with open(os.path.join(OUT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: %s (%d states, %d traces, %.1fs)" % (
            self.pid, "VIOLATED" if new else "held", self.cov["states"],
            self.cov["traces_validated_against_impl"], self.elapsed()))
        return 1 if new else 0

    def close(self):
        if self._pool:
            self._pool.close()
        self.scratch.remove()


def main(argv):
    args = dict(zip(argv[::2], argv[1::2]))
    pid = args["--property"]
    tier = args.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    ctx = Ctx(pid, tier, seed)
    try:
        build.build()
        ctx.log("built")
        mod = importlib.import_module("dv.props." + pid.lower())
        mod.check(ctx)
        return ctx.finish(getattr(mod, "LEVEL", "model_checking"))
    except ToolError as e:
        print("ERROR of the check: %s" % e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
    finally:
        ctx.close()
