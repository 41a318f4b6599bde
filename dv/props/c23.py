import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

from .. import build, pool, prog
from ..build import ToolError

TECHNIQUE = "TLA+ specification of the random operations as sets of permitted outcomes; TLC checks recorded draws against the sets, in both directions"
LEVEL_NOTE = ("The specification gives for every request the set of permitted outcomes, or the error. Many draws of dune are recorded for ranges of all widths "
              "and signs, lists of all lengths and kinds, and combinations; TLC checks that every draw is in the set and that every outcome of the set, or of its coarse "
              "views where it is large, was drawn (the chance to miss one by accident is below 1e-9). Operands, errors and messages are compared in sessions, "
              "also with first draws of fresh processes.")

MAX, MIN = "9223372036854775807", "(-9223372036854775807 - 1)"
# (preamble, program, draws)
INTS = [("0", "1"), ("0", "2"), ("1", "4"), ("-3", "3"), ("-1", "0"), ("0", "10"), ("-5", "-2"), ("100", "108"), ("9223372036854775800", MAX), (MIN, "(-9223372036854775800)"), ("2147483646", "2147483650"), ("-2147483650", "-2147483646"), ("4294967294", "4294967298"),
        ("9007199254740991", "9007199254740997"), ("-1", "1"), ("255", "258"), ("126", "130"), ("32766", "32770")]
WIDE = [("0", "100"), ("0", "1000"), ("-70", "60"), ("0", "65537"), ("-1000000", "1000000"), ("0", "4294967296"), ("-4294967297", "4294967297"), ("0", MAX), (MIN, "0"), (MIN, MAX), ("1", MAX), ("-1", MAX), ("9007199254740992", MAX), ("4611686018427387904", MAX)]
LISTS = ["[1]", "[1, 2]", "['a, 'b, 'c]", "[1, 2, 3, 4]", "[1, \"1\", 1.0, True, None]", "[[1], [1, 2], []]", "[{a=1}, {}, 2]", "[1, 1, 2]", "[\"\", \"é\", \"a\\nb\"]", "[[1, 2], [2, 1]]", "[1.5, -0.0, 0.0, 2.0, 2]", "[5, 5]", "[-1, 9223372036854775807]", "[[[]], [[[]]]]"]
FUNCS = ["[1, x -> x]", "[len, + , echo]", "[x ~> x, y -> y, 3]"]


def first(n):
    return "(0 to %d)" % n


def draws(ctx):
    k = ctx.n(1, 10)
    out = []
    for l, h in INTS:
        out.append(([], "rand@int %s %s" % (l, h), 700 * k))
        out.append((["let l = %s" % l, "let h = %s" % h], "rand@int l h", 700 * k))
    for l, h in WIDE:
        out.append(([], "rand@int %s %s" % (l, h), 3600 * k))
    for x in LISTS:
        out.append(([], "rand@choose %s" % x, 400 * k))
        out.append((["let xs = %s" % x], "rand@choose xs", 400 * k))
        out.append((["let xs = %s" % x], "rand@shuffle xs", 400 if "4" not in x and "True" not in x else 4400 * k))
    for x in FUNCS:
        out += [([], "rand@choose %s" % x, 60), ([], "rand@shuffle %s" % x, 60)]
    for n in (2, 3, 4, 5):
        out.append(([], "rand@shuffle %s" % first(n), [0, 0, 80, 300, 1100, 4400][n] * k))
    for n in (6, 7, 8, 13, 20) + ((40, 70) if ctx.thorough else (40,)):
        out.append((["let xs = %s" % first(n)], "rand@shuffle xs", 1200 if n < 20 else 36 * n))
    for n in (10, 33, 100, 129, 257):
        out.append((["let xs = %s" % first(n)], "rand@choose xs", 40 * n))
    # Draws next to each other.
    out += [([], p, n) for p, n in (
        ("[rand@int 0 2, rand@int 0 2]", 400), ("[rand@int 0 3, rand@int 0 3, rand@int 0 3]", 1500), ("[rand@choose [1, 2], rand@choose [1, 2]]", 400), ("[rand@shuffle [1, 2, 3], rand@shuffle [1, 2, 3]]", 1500),
        ("[rand@int 0 2, rand@choose [1, 2], rand@shuffle [1, 2]]", 500), ("[rand@shuffle [1, 2], rand@shuffle [1, 2], rand@shuffle [1, 2], rand@shuffle [1, 2]]", 900),
        ("rand@choose [rand@int 0 2, rand@int 5 7]", 500), ("rand@choose [rand@choose [1, 2], 3]", 400), ("[rand@int 0 10, rand@int 0 10]", 4600), ("[rand@int 0 2, rand@int 0 2, rand@int 0 2, rand@int 0 2, rand@int 0 2, rand@int 0 2]", 2500))]
    out += [(["let f = x -> rand@int x (x + 3)"], "f 4", 300), (["let d = rand@int"], "d (-2) 2", 400), (["let r = rand"], "r@choose [1, 2, 3]", 300), ([], "if True { rand@int 0 3 }", 300), ([], "eval '(rand@int 0 3)", 300),
            ([], "[1, 2, 3] | rand@choose", 300), ([], "fn@apply rand@int [0, 3]", 300), ([], "err@try (rand@int 0 3) (e -> 9)", 300), ([], "fn@map (x -> rand@int 0 x) [2, 3, 4]", 1400)]
    return out


def drawn(ctx, spec):
    """Records the draws: in one expression, and by statements of sessions of their own."""
    reqs = []
    for pre, p, n in spec:
        part = min(n, 150)
        reqs.append(prog.session(pre + [p, "fn@map (_ -> { %s }) (1 to %d)" % (p, n)]))
        reqs.append(prog.session(pre + ["let out = []", "for _ in (0 to %d) { let out = out + [{ %s }] }" % (part, p), "out"]))
        reqs.append(prog.session(pre + [p] * 25))
    got = ctx.ask(reqs, 240)
    cases = []
    for k, (pre, p, n) in enumerate(spec):
        a, b, c = got[3 * k:3 * k + 3]
        bad = next((g for g in (a, b, c) if "steps" not in g or any(s["r"][0] != "ok" for s in g["steps"])), None)
        case = {"progs": pre + [p], "pre": [s["ast"] for s in a.get("steps", [])[:len(pre)]] if bad is None else []}
        if bad is not None:
            ctx.mismatch("draws", case, "draws of %s" % p, None, {"why": "no draws", "got": bad if "steps" not in bad else [s["r"] for s in bad["steps"]]})
            continue
        case["ast"] = a["steps"][len(pre)]["ast"]
        vals = [a["steps"][len(pre)]["r"][1]] + a["steps"][-1]["r"][1][1]
        vals += b["steps"][-1]["r"][1][1]
        vals += [s["r"][1] for s in c["steps"][len(pre):]]
        case["_n"] = len(vals)
        case["draws"] = [json.loads(x) for x in sorted({json.dumps(v) for v in vals})]
        cases.append(case)
    return cases


def fresh(ctx, n):
    """First draws of processes of their own."""
    progs = ["rand@int 0 2", "rand@choose [1, 2]", "rand@shuffle [1, 2]", "rand@int 0 4", "[rand@int 0 2, rand@int 0 2]"]
    asts = [s["ast"] for s in ctx.ask([prog.session(progs)])[0]["steps"]]
    env = dict(pool.clean_env(ctx.scratch.path), TERM="dumb")

    def go(p):
        r = subprocess.run([build.DUNESH, "-x", ("for x in (%s) { print x }; None" if "[" == p[0] or "shuffle" in p else "print (%s)") % p], cwd=ctx.scratch.path, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, preexec_fn=pool.demote)
        return r.stdout.decode()
    cases = []
    with ThreadPoolExecutor(8) as ex:
        for p, ast, seen in zip(progs, asts, [set(ex.map(go, [p] * n)) for p in progs]):
            vals = []
            for s in sorted(seen):
                a = ctx.ask([prog.session(["[%s]" % ", ".join(s) if "[" == p[0] or "shuffle" in p else s.strip() or "None"])])[0]["steps"][0]
                vals.append(a["r"][1] if a["r"][0] == "ok" else ["str", s])
            cases.append({"progs": [p], "pre": [], "ast": ast, "draws": vals})
    return cases


BAD = ["rand@int 1 1", "rand@int 2 1", "rand@int 0 0", "rand@int %s %s" % (MAX, MIN), "rand@int %s %s" % (MAX, MAX), "rand@int 0 (-1)", "rand@int 1.0 5", "rand@int 1 5.0", "rand@int \"1\" 5", "rand@int None 1", "rand@int [1] [2]", "rand@int", "rand@int 1", "rand@int 1 2 3",
       "rand@int (zz 1) 5", "rand@int 5 (zz 1)", "rand@int { print 1; 5 } { print 2; 5 }", "rand@int { print 1; 5 } { print 2; 6 }", "rand@int (1 // 0) { print 1; 3 }", "rand@choose []", "rand@choose {}", "rand@choose \"abc\"", "rand@choose 5", "rand@choose None", "rand@choose {a=1}", "rand@choose", "rand@choose [1] [2]", "rand@choose (zz 1)", "rand@choose [zz 1]", "rand@choose [1, 1 // 0]",
       "rand@choose { print 1; [5] }", "rand@choose [{ print 1; 5 }]", "rand@choose '[1, 2]", "rand@choose ()", "rand@shuffle []", "rand@shuffle [1]", "rand@shuffle {}", "rand@shuffle \"abc\"", "rand@shuffle 5", "rand@shuffle None", "rand@shuffle {a=1}", "rand@shuffle", "rand@shuffle [1] [2]", "rand@shuffle (zz 1)", "rand@shuffle [1, zz 1]", "rand@shuffle { print 1; [5] }", "rand@shuffle '[1, 2]",
       "rand@choose (x -> x)", "rand@shuffle (x -> x)", "rand@int (x -> x) 2", "rand@int True False", "rand@int 's 5", "rand@choose 's", "rand", "rand@int 0 1", "rand@int %s %s" % (MIN, "(-9223372036854775807)"), "rand@choose [[]]", "rand@shuffle [[]]", "rand@zz 1", "err@try (rand@int 3 1) (e -> e)", "err@try (rand@choose []) (e -> e@message)"]
OPERANDS = ["[1, 2, 3]", "[]", "[7]", "[[1, 2], [3]]", "['a, \"b\", {k=1}]", "(0 to 30)", "[x -> x, 1]", "{a=[1, 2]}"]


def sessions(ctx):
    out = []
    rng = ctx.rng
    for x in OPERANDS:
        out.append(["let xs = %s" % x, "let ys = xs", "let r = rand@shuffle xs", "xs", "ys", "let c = rand@choose xs", "xs", "ys", "let xs = rand@shuffle xs", "len xs", "ys", "let f = l -> rand@shuffle l", "let z = f ys", "ys", "let n = rand@int 0 5", "[n, n]", "fn@map (_ -> rand@shuffle ys) [1, 2, 3]", "ys"])
        out.append(["let d = {l=%s}" % x, "let r = rand@shuffle d@l", "d", "rand@choose d@l", "d", "rand@shuffle (rand@shuffle d@l)", "d", "let s = rand@shuffle d@l", "s", "s", "rand@shuffle s", "s"])
    out += [["let xs = [1, 2, 3]", rng.choice(BAD), "xs", rng.choice(BAD), "rand@shuffle xs", "xs"] for _ in range(ctx.n(40, 400))]
    parts = ["let a = rand@int 0 3", "let a = rand@choose l", "let l = rand@shuffle l", "let l = l + [a]", "l", "a", "let b = [a, a]", "b", "a + 1", "len l", "for i in l { rand@choose l }", "fn@map (x -> rand@int x (x + 2)) [1, 5]", "if a == 1 { print \"one\" } else { print \"no\" }", "rand@int a (a + 2)", "l == l", "let m = {k=a}", "m@k", "rand@choose [a, 9]", "print (rand@shuffle l)", "eval 'a", "let g = x -> a", "g 1", "err@try (rand@int a 0) (e -> 7)", "rand@choose (rand@shuffle [l, l])"]
    out += [["let l = [1, 2]", "let a = 1"] + [rng.choice(parts) for _ in range(rng.randint(4, 14))] for _ in range(ctx.n(1200, 30000))]
    return out


def check(ctx):
    ctx.model_check("DesignRand", cfg=ctx.n("DesignRand", "DesignRand_deep"), what="every permitted outcome can be drawn, no other, by drawing and by shuffling", at_least=300)
    prog.judge(ctx, [prog.session(s, show=True, msg=True) for s in sessions(ctx) + prog.packed(BAD)], "requests, operands and results", max_skip=0.4)
    cases = drawn(ctx, draws(ctx))
    ctx.log("drawn")
    ctx.judge("TraceRand", cases, "every draw is permitted, and everything permitted is drawn", max_skip=0.0, batch=4000, env={"SMALL": "1"}, show=lambda c: {"progs": c["progs"], "draws": len(c["draws"])})
    ctx.cov["models"]["draws"] = sum(c.get("_n", 0) for c in cases)
    ctx.judge("TraceRand", fresh(ctx, ctx.n(60, 400)), "first draws of fresh processes", max_skip=0.0, env={"SMALL": "1"}, show=lambda c: {"progs": c["progs"], "draws": c["draws"]})
