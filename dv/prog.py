"""Sessions: programs run one after another in one shell, judged by spec/TraceProg."""
import collections
import itertools
import os

from .build import ToolError


def session(progs, show=False, msg=False, cwds=False, tree=None, root="r", each=False, inh=None):
    req = {"op": "session", "progs": list(progs), "ast": True, "show": show, "msg": msg, "cwds": cwds}
    if tree is not None:
        req["root"], req["tree"] = root, tree
    if each:
        req["_each"] = True
    if inh:
        req["_inh"] = [[k, v] for k, v in inh.items()]
    return req


def case_of(req, ans):
    """The recorded session as a behaviour for TraceProg."""
    if "panic" in ans or "bad" in ans:
        raise ToolError("the harness failed: %r" % ans)
    c = {"progs": req["progs"]}
    if "_inh" in req:
        c["inh"] = req["_inh"]
    if "steps" not in ans:
        # The process ended without an answer: which step did it is not known.
        r = ["abort", ans["abort"]] if "abort" in ans else ["hang", 0]
        c.update(cwd="/", steps=[{"r": r, "out": "", "env": []}])
        return c
    c.update(cwd=ans["cwd"], steps=ans["steps"])
    if "_each" in req:
        c["each"] = True
    if "root" in req:
        c["root"] = [x for x in ans["cwd"].split("/") if x]
        c["tree"] = req["tree"]
    return c


def record(ctx, reqs, timeout=60):
    cases = [case_of(r, a) for r, a in zip(reqs, ctx.ask(reqs, timeout))]
    if os.environ.get("DV_NAMES"):
        # What the programs take for programs (to see whether they mean what they say).
        n = collections.Counter(s.get("msg", "") for c in cases for s in c["steps"] if s["r"][:2] == ["err", "program-not-found"])
        print(n.most_common(40))
    return cases


def judge(ctx, reqs, what, max_skip=0.3, timeout=60, batch=4000, tlc_timeout=800, small=True):
    cases = record(ctx, reqs, timeout)
    if os.environ.get("DV_NAMES") == "2":
        return cases
    # A program the parser rejects ends up as a step without effect.
    n = sum(len(c["steps"]) for c in cases)
    syn = sum(1 for c in cases for s in c["steps"] if s["r"][0] == "syn")
    if syn > 0.2 * n:
        raise ToolError("%s: %d of %d programs are not programs" % (what, syn, n))
    ctx.judge("TraceProg", cases, what, steps=lambda c: len(c["steps"]), batch=batch, max_skip=max_skip,
              timeout=tlc_timeout, env={"SMALL": "1"} if small else None, show=lambda c: {"progs": c["progs"]})
    return cases


def histories(pool, k, probes=()):
    """All sequences of k statements of the pool, each followed by the probes."""
    return [list(t) + list(probes) for t in itertools.product(pool, repeat=k)]


def some_histories(rng, pool, n, lo, hi, probes=()):
    return [[rng.choice(pool) for _ in range(rng.randint(lo, hi))] + list(probes) for _ in range(n)]


def packed(programs, n=40, pre=()):
    """Independent programs, n to a session."""
    ps = list(programs)
    return [list(pre) + ps[i:i + n] for i in range(0, len(ps), n)]
