import itertools
import json
import os

from .. import prog
from ..build import VERIF

TECHNIQUE = "TLA+ specification of the library replayed on calls of every builtin with every kind and number of arguments; a crash is never a behaviour of it"
LEVEL_NOTE = ("Every builtin of the shell (taken from the running shell) is called with 0 to 4 arguments from a pool of all kinds of values and extreme numbers, "
              "its result printed in both forms; file functions run in scratch trees. A panic, abort or hang is a mismatch with every state of the "
              "specification; the value, message, output and files are compared where the specification decides them.")

# Calls that end the process by definition (input: at the end of its input), and what pauses for as long as it is told to.
ENDS = {"exit", "quit", "os@exit", "input"}
# Asking these for a huge result is asking for a huge amount of memory (DESIGN.md).
SIZED = {"*", "to", "list@range", "ops@*", "time@sleep"}
# These give the whole environment, which takes the specification seconds to write out.
WHOLE = {"vars", "sys@env"}
VALUES = ["0", "1", "-1", "3", "9223372036854775807", "(-9223372036854775807 - 1)", "2.5", "-0.0", "(0.0 // 0.0)", "1e5", '""', '"a"', '"é中😀"', '"a\\nb"', '"{"', "None", "True", "False", "'s", "''s",
          "[]", "[1, 2, 3]", '["b", 2.5, None]', "[[1], [\"x\", {k=2}]]", "{}", "{a=1}", '{a={b=[1]}, é="\\n"}', "(x -> x)", "(x -> y -> x)", "(x ~> x)", "'(1 + 2)", "'{ 1; 2 }", "len", "+", "fn@map", "(fn@map len)", "'[a, b]", "zz", "(zz 1)", "(1 // 0)", "{ print 1; 2 }", '"ab" * 40', "(x -> x // 0)", "math@pi", "list", "\"%41\"", "\"*\"", "\"a\\0b\"", "-9223372036854775807", "340282366920938463463374607431768211456.5"]
HUGE = {"9223372036854775807", "(-9223372036854775807 - 1)", "-9223372036854775807", "340282366920938463463374607431768211456.5", "1e5"}


def builtins(ctx):
    base = ctx.ask([{"op": "base"}])[0]["base"]
    out = []

    def walk(path, v):
        if v[0] == "map":
            for k, x in v[1]:
                walk(path + [k], x)
        elif v[0] in ("bi", "lam", "mac") and path[0] != "std":
            out.append("@".join(path))
    for k, v in base:
        walk([k], v)
    # A check of a library that is not there would find nothing.
    known = [k for k, _ in json.load(open(os.path.join(VERIF, "spec", "base.json")))]
    return base, [f for f in out if f not in ENDS], known


def fn(f):
    return f if f[0].isalpha() else "(%s)" % f


def calls(ctx, names, files):
    out = []
    for f in names:
        if (f.startswith("fs@") or f in (">>", ">>>", "<<", "cd", "os@cd", "sys@cd", "sys@include", "sys@import", "ops@>>", "ops@>>>", "ops@<<")) != files:
            continue
        pool = [v for v in VALUES if not (f in SIZED and v in HUGE)]
        if files:
            pool = ['"a"', '"d"', '"d/x"', '"new"', '"d/e"', '""', '"é"', '"a/b"', '"."', '"*"', '"d/*"', '"["', '"x" * 300', "(\"x\" * 300) + \"/y\"", '"a\\0b"', "CWD"] + pool
        g = fn(f)
        if f in WHOLE:
            out += ["{ %s %s; 1 }" % (g, a) for a in pool] + [g]
            continue
        out.append(g)
        out += ["%s %s" % (g, a) for a in pool]
        out += ["%s %s" % (g, " ".join(ctx.rng.choice(pool) for _ in range(2))) for _ in range(ctx.n(45, 900))]
        out += ["%s %s" % (g, " ".join(ctx.rng.choice(pool) for _ in range(3))) for _ in range(ctx.n(25, 900))]
        out += ["%s %s" % (g, " ".join(ctx.rng.choice(pool) for _ in range(4))) for _ in range(ctx.n(8, 100))]
        if not files:
            out += ["fn@apply %s [%s]" % (g, ", ".join(ctx.rng.choice(pool) for _ in range(k))) for k in (1, 2, 3)]
            out += ["fn@map %s [%s]" % (g, ", ".join(ctx.rng.choice(pool) for _ in range(3))), "(%s %s) | %s" % (g, ctx.rng.choice(pool), g) if f not in SIZED else "1"]
    return out


def nested(ctx, names, n):
    """Calls whose arguments are the results of other calls."""
    rng, out = ctx.rng, []
    plain = [f for f in names if not f.startswith(("fs@", "console@", "time@", "sys@", "input", "cd", "os@", "clear", "ops@", ">>", "<<", "widget")) and f not in SIZED | WHOLE]
    pool = [v for v in VALUES if v not in HUGE] + ["7", "10", '"x y"']

    def e(d):
        if d == 0 or rng.random() < 0.25:
            return rng.choice(pool)
        return "(%s %s)" % (fn(rng.choice(plain)), " ".join(e(d - 1) for _ in range(rng.choice([1, 1, 2, 2, 3]))))
    for _ in range(n):
        out.append(e(3))
    return out + ["widget@create \"a\" \"b c\" %s %s" % (w, h) for w in ("5", "70000", "200000", "9223372036854775807") for h in ("3", "9223372036854775807")]


def shapes(ctx, names):
    """All calls with two or three arguments of a small pool, for the functions which take so many."""
    plain = [f for f in names if not f.startswith(("fs@", "sys@", "os@", "time@")) and f not in SIZED | WHOLE | {"cd", "clear", ">>", ">>>", "<<", "ops@>>", "ops@>>>", "ops@<<"}]
    out = []
    for k, pool in ((2, ["[1, 2]", '"ab"', "{a=1}", "0", "-1", "3", "9223372036854775807", "(-9223372036854775807 - 1)", '""', "[]", "(x -> x)", "None", "-2.5"]), (3, ["[1, 2]", '"ab"', "{a=1}", "0", "-1", "9223372036854775807", "(x -> y -> x)"])):
        probe = prog.record(ctx, [prog.session(r, msg=True) for r in prog.packed(["%s%s" % (fn(f), " 0" * k) for f in plain], 20)])
        # (A crash is for the judged calls to find.)
        steps = [s for c in probe for s in c["steps"]]
        takes = [f for f, s in zip(plain, steps) if "arguments to function" not in s.get("msg", "")] if len(steps) == len(plain) else plain
        for f in takes:
            ps = ["%s %s" % (fn(f), " ".join(a)) for a in itertools.product(pool, repeat=k)]
            out += ps if ctx.thorough or k == 2 else ctx.rng.sample(ps, min(len(ps), 110))
    return out


def check(ctx):
    base, names, known = builtins(ctx)
    if len(names) < 200:
        # Fewer functions than any dune has: something else is wrong.
        ctx.mismatch("library", {"functions": names}, "the functions of the library")
        return
    free = calls(ctx, names, False)
    prog.judge(ctx, [prog.session(r, show=True, msg=True, each=True) for r in prog.packed(free, 80)], "calls", max_skip=0.35)
    prog.judge(ctx, [prog.session(r, show=True, msg=True, each=True) for r in prog.packed(nested(ctx, names, ctx.n(3000, 60000)), 80)], "calls of calls", max_skip=0.35)
    prog.judge(ctx, [prog.session(r, show=True, msg=True, each=True) for r in prog.packed(shapes(ctx, names), 80)], "shapes of calls", max_skip=0.35)
    tree = [[["a"], ["file", ["str", "one\ntwo\n"]]], [["d"], ["dir"]], [["d", "x"], ["file", ["str", "X"]]], [["d", "e"], ["dir"]]]
    filed = calls(ctx, names, True)
    ctx.rng.shuffle(filed)
    prog.judge(ctx, [prog.session(r, show=True, msg=True, cwds=True, tree=tree) for r in prog.packed(filed, 5)], "file functions", max_skip=0.5)
