import itertools

from .. import prog, proggen

TECHNIQUE = "TLA+ evaluator threading output and bindings; TLC replays recorded sessions step by step"
LEVEL_NOTE = ("Every operand, item, argument, condition and body prints a mark, so that TLC's comparison of the output with the TLA+ "
              "evaluator's decides order and number of evaluations. All statement forms with marked parts, every truth value in every "
              "branching construct, pools of histories and random marked sessions; beyond those it is sampling.")

# M is replaced by marked expressions, one mark each.
FORMS = ["[M, M, M]", "[M, [M, M], M]", "{a=M, b=M, c=M}", "{c=M, a=M, b={z=M, y=M}}", "M + M", "M - M - M", "M + M * M", "(M + M) * M", "M // M % M",
         "M == M", "M != M", "M < M", "M >= M", "M && M", "M || M", "M && M || M", "! M", "M to M", "list@list M M M", "f3 M M M", "(f3 M) M M", "f1 (f1 M)",
         "m3 M M M", "if M M else M", "if M { M; M } else { M; M }", "if M M", "if M M else if M M else M", "for i in [M, M] { M }", "for i in M to M { M; i }",
         "for i in [M, M] { for j in [M, i] { M; j } }", "{ M; M; M }", "{ M; { M; M }; M }", "let v = M", "{ let v = M; let v = v + M; v }", "let v = [M, M]",
         "println M M M", "print M M", "[1, 2, 3]@M", "[M, M]@M", "{a=M, b=M}@a", "[M, [M]]@1@0", "len [M, M]", "fn@map (k -> k) [M, M]",
         "fn@reduce (p -> q -> p + q) M [M, M]", "err@try M M", "err@try [M, M] (e -> M)", "eval '[M, M]", "exec '{ M; M }", "eval (M)", "'[M, M]", "'M",
         "(a -> M) M", "(a ~> M) M", "(a -> b -> M) M M", "(a ~> b ~> M) M M", "a -> M", "a ~> M", "{}", "[]", "{ M }", "insert M 0 M", "list@cons M [M]", "list@append [M] M",
         "M | f1", "M | f1 | f1", "report M", "str M", "(if M f1 else f2) M", "((M) f1)", "(M; M)", "math@max M M M", "math@sum M M [M, M]", "string@join [M, M] \"-\"",
         "fn@compose (a -> { M; a }) (a -> { M; a }) M", "fn@flip f3 M M M", "fn@apply f3 [M, M, M]", "fn@curry f3 M", "fn@curry f3 3 M M M", "fn@? M M M", "fn@id M", "fn@const M M", "fn@filter (a -> M) [M, M]",
         "list@foldl (a -> b -> { M; a + b }) M [M, M]", "list@foldr (a -> b -> { M; a - b }) M [M, M]", "list@map (a -> M) [M, M]", "dict@insert {a=M} M M", "list@take M [M, M]", "sys@set \"v\" M", "sys@defined? M", "unbind M",
         "log@info M M", "- M", "+ M", "M -1", "M (M)"]
VALS = ["1", "0", "3", "True", "False", "None", "[]", "\"\"", "\"t\"", "2.5", "zz 1", "'s"]
TRUTH = ["0", "1", "-1", "9223372036854775807", "0.0", "-0.0", "0.5", "-1.5", "0.00000000000000000001", "-0.00000000000000000001", "(1.0 // 10000000000000000000000000000000.0)", "(0.0 // 0.0)", "0.0000001", "(- 0.0)", "\"\"", "\"a\"", "\" \"", "\"0\"", "\"False\"", "True", "False", "None", "[]", "[0]", "[[]]", "{}", "{a=0}",
         "'x", "zz", "'(1)", "(1)", "'{ 1 }", "n -> 0", "n ~> 0", "+", "print", "fs", "'(n -> 1)", "{ 1 }", "{ 0; 1 }", "let q = 1", "'(1 + 1)", "1 == 1", "1 // 0", "'''x", "'\"\"", "'0",
         "parse@json \"null\"", "fs@read \"empty\"", "fs@read \"bytes\"", "1.0 // 0.0", "(m -> 1) 2", "list@list", "log@get-level"]


def mark(form, vals):
    out, k = [], 0
    for part in form.split("M"):
        out.append(part)
        k += 1
        out.append("{ print \"%d \"; %s }" % (k, vals[(k - 1) % len(vals)]))
    return "".join(out[:-1])


SETUP = ["let f1 = a -> { print \"f1 \"; a }", "let f2 = a -> [a]", "let f3 = a -> b -> c -> { print \"f3 \"; [a, b, c] }",
         "let m3 = a ~> b ~> c ~> { print \"m3 \"; [a, b, c] }"]


def families(ctx):
    out = []
    for f in FORMS:
        n = f.count("M")
        for v in VALS:
            out.append(SETUP + [mark(f, [v]), "[v, a, b, i, j]"])
        for _ in range(ctx.n(6, 80)):
            out.append(SETUP + [mark(f, [ctx.rng.choice(VALS[:10] + ["1", "2", "zz 1"]) for _ in range(max(n, 1))]), "[v, a, b, i, j]"])
        # The part which fails: what comes before is evaluated, what comes after is not.
        for k in range(n):
            out.append(SETUP + [mark(f, ["zz 1" if j == k else "[1, 2]" if "for" in f and j == 0 else "1" for j in range(n)]), "[v, a, b, i, j]"])
    for t in TRUTH:
        out.append(["let x = 5", "if (%s) 1 else 2" % t, "if (%s) 1" % t, "! (%s)" % t, "(%s) && 7" % t, "(%s) || 7" % t, "7 && (%s)" % t, "0 || (%s)" % t,
                    "fn@filter (k -> %s) [1]" % t, "fn@? (%s) 1 2" % t, "let v = %s" % t, "if v 1 else 2", "! v", "(a -> if a 1 else 2) (%s)" % t, "for i in [%s] { if i 1 else 2 }" % t,
                    "if (! (%s)) { 1 } else { 2 }" % t])
    bind = ["let x = 1", "let x = x + 1", "let x = zz 1", "let x = { let x = 5; x + 1 }", "for x in [3, 4] { x }", "for x in [] { 1 }", "for x in x { x }", "{ let x = 9 }", "{ let y = x; let x = y * 2 }",
            "if x { let y = 1 } else { let z = 2 }", "let y = let x = 3", "for i in [1, 2] { let x = [x, i] }", "for i in [1, 2, 3] { for i in [10] { i }; i }", "for i in [1, 2] { zz i }", "let x = [for i in [1, 2] { i * i }, x]", "unbind 'x",
            "for i in 0 to 3 { if (i == 1) { let y = i } }", "{ let x = 1; { let x = 2; { let x = 3 } }; x }", "let x = if False 1"]
    for k in (1, 2):
        for t in itertools.product(bind, repeat=k):
            out.append(["let x = 7"] * (k == 1) + list(t) + ["[x, y, z, i]"])
    return out


def check(ctx):
    ctx.laws("ForLaw LetLaw", ctx.n(1, 3), "laws of for and let")
    ctx.laws("SeqLaw IfLaw", ctx.n(0, 2), "laws of sequence and choice")
    tree = [[["empty"], ["file", ["str", ""]]], [["bytes"], ["file", ["bytes", [255, 0]]]]]
    prog.judge(ctx, [prog.session(r, show=True, msg=True, tree=tree) for r in families(ctx)], "marked parts")
    reqs = proggen.sessions(ctx, ctx.n(1200, 20000), effects=0.45)
    prog.judge(ctx, [prog.session(r, msg=True, tree=[]) for r in reqs], "random marked sessions")
