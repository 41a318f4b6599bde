import itertools

from .. import prog, proggen

TECHNIQUE = "TLA+ evaluator with error outcomes; TLC replays recorded sessions step by step"
LEVEL_NOTE = ("TLC computes which part fails, with which kind of error and message, what was printed, bound and written before it, "
              "and what a handler receives. Every error kind in every position of every construct, with and without a handler; "
              "random sessions with injected failures. Messages are compared, except the parts the operating system words.")

# One of every kind, and how it arises.
FAIL = {
    "cannot-apply": ["1 2", "[1] 2", "(n -> n) 1 2", "None 1", "(1 + 1) 2", "{a=1} 1", "True 1"],
    "for-non-list": ["for i in 5 { i }", "for i in \"ab\" { i }", "for i in {a=1} { i }"],
    "recursion-depth": ["(s -> s s) (s -> s s)", "(s -> 1 + (s s)) (s -> 1 + (s s))"],
    "permission-denied": ["\"./plain\" 1", "\"./dir\""],
    "program-not-found": ["zz 1", "\"no such program\" 1", "zz \"a\" b", "\"./nothing\""],
    "command-failed": ["\"./plain/x\"", "\"a\\u{0}b\" 1", "vargv \"a\\u{0}b\""],
    "syntax-error": ["parse@expr \"1 +\"", "parse@expr \"let\\n\\\"\\\\q\\\"\""],
    "custom-error": ["1 // 0", "1 + \"a\"", "len 5", "list@nth 9 [1]", "fs@read \"nofile\"", "err@try", "insert 1", "cd \"nowhere\"", "9223372036854775807 + 1",
                     "vargv | zz", "sys@include \"bad.ds\"", "sys@import \"nothing\"", "fn@map 1 2", "string@split 1 2", "rand@int 1 0"],
}
ALL = [f for fs in FAIL.values() for f in fs]
TREE = [[["plain"], ["file", ["str", "text"]]], [["dir"], ["dir"]], [["bad.ds"], ["file", ["str", "let = ;"]]],
        [["fails.ds"], ["file", ["str", "let a = 1; println \"in\"; zz 1; let b = 2"]]], [["ok.ds"], ["file", ["str", "let a = 1; a"]]]]
# F fails; everything around leaves a trace.
PLACES = [
    "{ let a = 1; F; let b = 2 }", "[1, F, { let b = 2 }]", "{a={ let a = 1 }, b=F, c={ let b = 2 }}", "(F) + { let b = 1 }", "{ let a = 1; 5 } + (F)",
    "if F { let a = 1 } else { let b = 2 }", "if True { let a = 1; F; let b = 2 }", "if False 1 else { F }", "let a = F", "let a = [1, F]",
    "for i in F { let a = i }", "for i in [1, 2, 3] { let a = i; if (i == 2) { F }; let b = i }", "println 1 (F) { let b = 2; 3 }", "print \"x\" (F)",
    "(a -> b) (F)", "(n -> { let a = 1; F })  1", "(n ~> { let a = n; F; let b = n }) 1", "(p ~> F) { let a = 2; p }", "(x -> y -> F) 1 (println 2)", "fn@map (n -> { print n; F }) [1, 2]",
    "fn@reduce (p -> q -> F) 0 [1, 2]", "list@foldr (p -> q -> F) 0 [1, 2]", "eval '{ let a = 1; F; let b = 2 }", "exec '{ let a = 1; F; let b = 2 }", "err@try (F) (e -> { println e@code; F })",
    "(F) | (n -> n)", "1 | (n -> F) | (m -> println m)", "vargv 1 | { F } | vcat", "str (F)", "F; let b = 2", "(F)", "! (F)", "(F) && { let b = 1 }", "1 && (F)", "0 || (F)", "list@list 1 (F) { let b = 2 }",
    "log@info (F)", "fs@write \"out\" (F)", "fs@write (F) { let b = 2 }", "(F) >> \"out\"", "vargv 1 (F) { let b = 2 }", "[1, 2]@(F)", "insert [1] (F) { let b = 2 }", "fn@compose (n -> F) (m -> { print m; m }) 1",
    "{ unbind 'x; F }", "sys@import \"fails.ds\"", "sys@include \"fails.ds\"", "{ cd \"dir\"; F }", "(n -> { cd \"dir\"; F }) 1",
]


def families(ctx):
    out = []
    reps = [fs[0] for fs in FAIL.values()] + ["1 // 0", "1 2"]
    for pl in PLACES:
        for f in (ALL if ctx.thorough else reps):
            p = pl.replace("F", f)
            out.append(["let x = 5", p, "[a, b, x, i, p, q, n]", "err@try (%s) (e -> e)" % p, "[a, b, x, i, p, q, n]", "fs@exists? \"out\""])
    for f in ALL:
        h = ["e -> e", "e -> e@code", "e -> e@message", "e -> e@expression", "e -> (println e; 1)", "e ~> let caught = e", "e -> zz e", "e -> fn@map", "+", "println", "0", "zz", "e -> d -> [e@code, d]",
             "e -> { let y = e@code; y }", "e -> err@try (zz e@code) (d -> [d@code, e@code])", "list@list", "e -> exec e@expression", "(e -> e@code == (err@codes@custom-error))"]
        for k in h:
            out.append(["err@try (%s) (%s)" % (f, k), "[e, y, caught, d]"])
        out.append(["let f = n -> { let a = n; %s; let b = n }" % f, "f 1", "err@try (f 1) (e -> e@code)", "[a, b, n]", "err@try (err@try (%s) (e -> zz e@code)) (e -> e@code)" % f,
                    "err@try (err@try (%s) (e -> e@code)) (e -> 1000)" % f, "for k in [1, 2] { err@try (%s) (e -> e@code + k) }" % f,
                    "let h = e -> { let got = e; e@message }", "err@try (%s) h" % f, "got"])
    # Nothing fails: the handler stays untouched.
    for ok in ["1", "x", "{ let a = 1; a }", "None", "'(zz 1)", "vargv 1", "fn@map (n -> n) [1]", "let a = 2", "\"text\"", "[zz, 1]", "zz", "err@try 1 2"]:
        for k in ["e -> println e", "zz 1", "{ println \"handler\"; 1 }", "1 // 0", "e ~> let caught = 1"]:
            out.append(["err@try (%s) (%s)" % (ok, k), "[a, caught, x]"])
    out += [["err@codes", "err@codes@custom-error", "for c in (dict@items err@codes) { c }", "err@try 1", "err@try", "err@try 1 2 3"]]
    return out


def random_failures(ctx, n):
    out = []
    for s in proggen.sessions(ctx, n, effects=0.25):
        s = list(s)
        for _ in range(ctx.rng.randint(1, 2)):
            f = ctx.rng.choice(ALL)
            i = ctx.rng.randrange(len(s) + 1)
            s.insert(i, ctx.rng.choice(PLACES).replace("F", f) if ctx.rng.random() < 0.5 else "err@try (%s) (e -> [e@code, x])" % ctx.rng.choice(PLACES).replace("F", f))
        out.append(s)
    return out


def check(ctx):
    ctx.laws("TryLaw", ctx.n(2, 3), "law of err@try")
    prog.judge(ctx, [prog.session(r, msg=True, show=True, tree=TREE, cwds=True) for r in families(ctx)], "failures in every place")
    prog.judge(ctx, [prog.session(r, msg=True, tree=TREE, cwds=True) for r in random_failures(ctx, ctx.n(700, 12000))], "random failures")
