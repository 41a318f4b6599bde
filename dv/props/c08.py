import itertools

from .. import prog, proggen

TECHNIQUE = "TLA+ evaluator with a recursion bound; TLC replays recorded sessions, a dead process is a violation"
LEVEL_NOTE = ("Endless recursion through every construct and every builtin which evaluates or calls (alone, in pairs and under err@try) must be "
              "the recursion error in the specification and in the implementation, after which the session goes on; recursion 40 calls deep and "
              "iteration up to 3000 items must give the specification's value. Where in between the bound lies is left open.")

# S stands for the endless part again: (s s) in a function given to itself, (m n) in a macro.
WAYS = ["S", "1 + (S)", "(S) + 1", "- (S)", "(S) * 2 - 1", "[S]", "[1, [S]]", "{a=S}", "{ S }", "{ S; 1 }", "{ 1; S }", "let q = S", "if S 1 else 2", "if True { S } else 2", "if False 1 else { S }",
        "for i in S { i }", "for i in [1] { S }", "for i in [1, 2] { S }", "(S) == 1", "1 != (S)", "(S) < 1", "(S) && True", "True && (S)", "False || (S)", "! (S)", "1 to (S)", "[1]@(S)", "(S)@0", "list@list (S)", "str (S)",
        "len (S)", "println (S)", "print (S)", "debug (S)", "report (S)", "insert [1] 0 (S)", "eval '(S)", "eval (S)", "exec '(S)", "exec (S)", "eval (eval '(S))", "err@try (S) (e -> zz e@code)", "err@try (zz 1) (e -> S)",
        "fn@map (k -> S) [1]", "fn@map s [S]", "fn@filter (k -> S) [1]", "fn@reduce (p -> k -> S) 0 [1]", "list@foldl (p -> k -> S) 0 [1]", "list@foldr (p -> k -> S) 0 [1]", "list@map (k -> S) [1]", "fn@apply (k -> S) [1]", "fn@compose (k -> S) (k -> k) 1",
        "fn@compose (k -> k) (k -> S) 1", "fn@flip (p -> k -> S) 1 2", "fn@const (S)", "fn@id (S)", "fn@curry (p -> k -> S) 2 1 2", "fn@? (S) 1 2", "fn@? True (S) 2", "math@sum (S)", "math@max 1 (S)", "string@trim (S)", "string@join [S] \"\"",
        "list@cons (S) []", "list@rev (S)", "dict@keys (S)", "dict@insert {} \"a\" (S)", "(S) | (k -> k)", "1 | (k -> S)", "1 | (k -> k) | (k -> S)", "vargv (S)", "(S) | vcat", "vargv (S) | vcat", "log@error (S)", "fmt@red (S)", "fs@read (S)",
        "fs@write \"a\" (S)", "cd (S)", "rand@int 0 (S)", "widget@create (S) 1 2 3", "parse@expr (S)", "exec (parse@expr \"S\")", "(S) >> \"f\"", "(k -> S) 1", "(k ~> S) 1", "(k -> l -> S) 1 2", "(S) 1", "zz (S)", "string@split (S) \"a\"",
        "sys@defined? (S)", "math@abs (S)", "[1, 2, 3]@((S) - 1)", "(if True { k -> S } else 1) 1", "fn@filter fn@id [S]", "console@title (S)", "time@sleep (S)", "sys@include \"self.ds\"", "sys@import \"self.ds\""]
# Ways which start programs on the way back: slow with hundreds of calls pending, so not everywhere.
SLOW = {"vargv (S)", "vargv (S) | vcat", "zz (S)", "(S) | vcat"}
TREE = [[["self.ds"], ["file", ["str", "sys@include \"self.ds\""]]], [["imp.ds"], ["file", ["str", "1 + (sys@import \"imp.ds\")"]]],
        [["a.ds"], ["file", ["str", "sys@import \"b.ds\""]]], [["b.ds"], ["file", ["str", "[sys@import \"a.ds\"]"]]], [["f"], ["file", ["str", ""]]]]
AFTER = ["[x, 1 + 1]", "(k -> k + x) 3"]


def endless(ctx):
    out = []
    ways = WAYS
    for w in ways:
        f = w.replace("S", "s s")
        m = w.replace("S", "m n")
        out.append(["let x = 5", "let f = s -> %s" % f, "f f"] + AFTER)
        out.append(["let x = 5", "let f = s -> %s" % f, "err@try (f f) (e -> [e@code, x])"] + AFTER)
        if w not in SLOW:
            out.append(["let x = 5", "let m = n ~> %s" % m, "m 1", "err@try (m 2) (e -> [e@code, x, n])"] + AFTER)
    # Handlers which go on themselves make time exponential; that is not what is checked here.
    twice = [w for w in ways if "e -> S" not in w and w not in SLOW]
    pairs = list(itertools.product(twice, repeat=2))
    for a, b in ctx.rng.sample(pairs, ctx.n(60, 2500)):
        f = a.replace("S", "(%s)" % b.replace("S", "s s"))
        out.append(["let x = 5", "let f = s -> %s" % f, "f f"] + AFTER)
        # One through the other.
        out.append(["let x = 5", "let f = s -> t -> %s" % a.replace("S", "t t s"), "let g = t -> s -> %s" % b.replace("S", "s s t"), "f f g"] + AFTER)
    out += [["sys@import \"imp.ds\"", "1"], ["sys@import \"a.ds\"", "1"], ["sys@include \"self.ds\"", "1"],
            ["let q = '(eval q)", "eval q", "exec q", "1"], ["let q = '(1 + (exec q))", "exec q", "err@try (exec q) (e -> e@code)", "1"], ["let q = '(fn@map (k -> eval q) [1])", "eval q", "1"],
            ["let q = '{ let a = 1; [exec q] }", "exec q", "a"], ["let m = n ~> eval '(m n)", "m 1", "1"], ["let t = \"exec (parse@expr t)\"", "exec (parse@expr t)", "1"]]
    return out


def shallow(ctx):
    out = []
    for w in WAYS:
        if "self.ds" in w or "parse@expr" in w or "print" in w or "report" in w or "debug" in w:
            continue
        # Stops after n calls: whatever the way makes of it.
        f = w.replace("S", "s s (n - 1)")
        k = ctx.n(8, 12)
        out.append(["let f = s -> n -> if (n < 1) { 1 } else { %s }" % f, "f f %d" % k, "f f 3"])
        out.append(["let m = n ~> if (n < 1) { 1 } else { %s }" % w.replace("S", "m (n - 1)"), "m %d" % k, "m 3"])
    for k in (1, 10, 25, 40):
        out.append(["let f = s -> n -> if (n < 1) { 0 } else { n + (s s (n - 1)) }", "f f %d" % k])
        out.append(["let m = n ~> if (n < 1) { 0 } else { 1 + (m (n - 1)) }", "m %d" % k])
        out.append(["let f = s -> n -> if (n < 1) { [] } else { list@cons n (s s (n - 1)) }", "f f %d" % k])
        out.append(["let fib = s -> n -> if (n < 2) { n } else { (s s (n - 1)) + (s s (n - 2)) }", "fib fib %d" % min(k, 9)])
    return out


def loops(ctx):
    n = ctx.n(600, 3000)
    return [["let t = 0", "let r = for i in 0 to %d { let t = t + i; i }" % n, "t", "len r", "fn@reduce (a -> b -> a + b) 0 (0 to %d)" % n],
            ["len (fn@map (k -> k * 2) (0 to %d))" % n, "let f = k -> k + 1", "let t = 0", "for i in 0 to %d { let t = f t; 0 }@0" % n, "t"],
            ["list@foldr (a -> b -> a + b) 0 (0 to %d)" % n, "len (fn@filter (k -> (k %% 2) == 0) (0 to %d))" % n],
            ["let m = k ~> let t = k + t", "let t = 0", "let r = for i in 0 to %d { m i }" % n, "t"],
            ["let t = 0", "let r = for i in 0 to %d { err@try (zz i) (e -> e@code) }" % (n // 3), "math@sum r"],
            ["let t = 0", "let r = for i in 0 to %d { eval '(i + t); exec '(let t = t + 1) }" % (n // 3), "t"],
            ["len (for i in 0 to 50 { for j in 0 to %d { i * j } })" % (n // 50)]]


def check(ctx):
    prog.judge(ctx, [prog.session(r, tree=TREE) for r in endless(ctx)], "endless recursion", timeout=120)
    prog.judge(ctx, [prog.session(r, tree=TREE) for r in shallow(ctx)], "shallow recursion", small=False, timeout=120)
    prog.judge(ctx, [prog.session(r, tree=TREE) for r in loops(ctx)], "long loops", small=False, timeout=120)
