import itertools
import json

from .. import prog, proggen

TECHNIQUE = "TLA+ evaluator with quotes as values; TLC checks the laws of eval and exec and replays recorded sessions"
LEVEL_NOTE = ("TLC checks on the specification, in all states of histories of up to 2 programs (thorough: 3), that eval, exec, parse, include and import "
              "do to the bindings, files, output and level what the property says. Every program of a pool, run in 22 ways (quoted, evaluated, "
              "executed, parsed, from a file, inside functions, macros, loops and handlers), with the bindings, the output and the files compared "
              "afterwards; nested quotes; random programs run each way.")

PROGRAMS = ["1", "x", "zz", "zz 1", "1 + x", "let x = 2", "let q = x", "{ let q = 1; q + x }", "x = 3", "unbind 'x", "println x", "{ println 1; let x = x + 1; x }", "1 // 0", "{ let q = 1; zz 2; let x = 9 }",
            "n -> n + x", "n ~> let q = n", "(n -> n + x) 1", "(n ~> let q = n) 4", "f 1", "m 6", "let f = k -> k", "[1, x, { let q = 3 }]", "{a=x}", "if x 1 else 2", "for i in [1, 2] { let q = i; i }", "'x", "'(let q = 1)",
            "eval '(let q = 1)", "exec '(let q = 1)", "eval 'x", "fs@write \"out\" x", "fs@read \"data\"", "cd \"d\"", "vargv x", "vwhere", "log@set-level 3", "x | f", "\"text\"", "None", "{}", "()", "-x", "x@0", "CWD", "vars@x",
            "err@try (zz 1) (e -> { let q = e@code; q })", "err@try (let q = 5) 1", "let x = '(x + 1)", "len \"é\"", "let CWD = 5", "sys@defined? 'q", "sys@set q 1", "sys@unset x", "fn@map (k -> k + x) [1, 2]", "let y = n -> m -> [n, m, x]; y 1",
            "sys@include \"sub.ds\"", "sys@import \"sub.ds\"", "{ let a = 1; { let b = 2; a + b } }", "x; ", "# only a comment\n", "for x in [7] x", "\"s\" 1", "+ 1"]
FIRST = ["let x = 5", "let f = n -> n * x", "let m = n ~> { let q = n; n + x }"]
PROBES = ["[x, q, a, b, i, n, y, k, e]", "f 1", "pwd", "fs@exists? \"out\"", "log@get-level"]


def ways(p):
    """The program P as it would be run; TREE has it in the file p.ds."""
    q = json.dumps(p, ensure_ascii=False)
    return [[p], ["'{ %s }" % p, "'(%s)" % p if one(p) else "1"], ["let code = '{ %s }" % p, "eval code", "x", "exec code"], ["eval '{ %s }" % p], ["exec '{ %s }" % p], ["exec (eval ''{ %s })" % p], ["eval ''{ %s }" % p], ["exec ''{ %s }" % p, "eval (eval ''{ %s })" % p],
            ["exec (parse@expr %s)" % q], ["eval (parse@expr %s)" % q], ["parse@expr %s" % q], ["parse %s" % q, "exec (parse %s)" % q], ["sys@include \"p.ds\""], ["sys@import \"p.ds\""], ["sys@include \"./d/../p.ds\"", "sys@import \"p.ds\""],
            ["(k -> eval k) '{ %s }" % p, "(k -> exec k) '{ %s }" % p], ["(k ~> eval k) '{ %s }" % p, "(k ~> exec k) '{ %s }" % p], ["for c in ['{ %s }, '{ %s }] { exec c }" % (p, p)], ["for c in ['{ %s }, 1] { eval c }" % p],
            ["err@try (exec '{ %s }) (e -> e@code)" % p, "err@try (eval '{ %s }) (e -> e@code)" % p], ["let g = z -> eval '{ %s }" % p, "let x = 50", "g 1"], ["[eval '{ %s }, eval '{ %s }, x]" % (p, p)], ["fn@map eval ['{ %s }]" % p, "eval (sys@quote ({ %s }))" % p],
            ["let z = sys@include \"p.ds\"", "z", "let z = sys@import \"p.ds\"", "z"], ["(k -> sys@import \"p.ds\") 1", "(k -> sys@include \"p.ds\") 1"], ["{ cd \"d\"; sys@import \"../p.ds\" }", "{ cd \"d\"; sys@include \"../p.ds\" }"]]


def one(p):
    return ";" not in p and "#" not in p and p not in ("()",)


def tree(p):
    return [[["d"], ["dir"]], [["d", "sub.ds"], ["file", ["str", "let q = 77; x"]]], [["data"], ["file", ["str", "data"]]], [["p.ds"], ["file", ["str", p]]], [["sub.ds"], ["file", ["str", "let q = 7; let x = x + 1; [x, q]"]]]]


NEST = ["'1", "''1", "'''x", "eval '''x", "eval (eval '''x)", "'(1 + '2)", "eval '(1 + '2)", "['1, ''x]", "{a='x}", "('x) == 'x", "''x == 'x", "if 'x 1 else 2", "if 'None 1 else 2", "len '[1, 2]", "'[1, x]@1", "'f 3", "('f) 3", "(eval 'f) 3",
        "let q = 'x; q", "let q = ''x; q; eval q", "for i in '[1, 2] { i }", "for i in ['x, 'zz] { eval i }", "'(n -> n) 1", "'+ 1 2", "exec '+ 1 2", "println 'x ''x '(1 + 2)", "str 'x", "'x | f", "x | 'f", "'x@a", "'{ println 9 }", "' x", "'", "('x)", "'(x)",
        "eval '('f 3)", "eval 'eval 'x", "exec 'exec 'x", "eval (1 + 1)", "eval \"x\"", "exec \"x\"", "eval [1, 'x]", "exec {a='x}", "eval (n -> x)", "eval", "exec", "eval 1 2", "exec 1 2", "parse@expr 5", "parse@expr \"\"", "parse \"\"", "parse \"1 +\"", "parse@expr \"1 +\"",
        "parse@expr \"x\" 1", "parse@expr", "eval (parse@expr \"let q = 9\")", "exec (parse@expr \"let q = 9; q\")", "sys@include", "sys@import", "sys@include 1", "sys@import \"nothing\"", "sys@include \"d\"", "sys@import \"bad\\u{0}name\"", "sys@quote (x + 1)", "sys@quote 'x", "sys@quote", "vars@x",
        "let t = parse@expr \"n -> n + x\"; (eval t) 4", "(exec (parse@expr \"n ~> let q = n\")) 8", "let h = '(let x = x + 1); exec h; exec h; eval h; x"]


def files(ctx):
    """Files which include and import one another."""
    t = [[["a.ds"], ["file", ["str", "let a = 1; sys@include \"b.ds\"; let c = a + b; c"]]], [["b.ds"], ["file", ["str", "let b = a + 10; b"]]], [["i.ds"], ["file", ["str", "let r = sys@import \"a.ds\"; [r, a, b, c]"]]], [["bad.ds"], ["file", ["str", "let a = 1;\nlet = 2"]]],
         [["fail.ds"], ["file", ["str", "let a = 1; zz 1; let b = 2"]]], [["fn.ds"], ["file", ["str", "n -> n + a"]]], [["mod.ds"], ["file", ["str", "let a = 100; {get = (k -> a + k), set = (k ~> let a = k)}"]]], [["empty.ds"], ["file", ["str", ""]]],
         [["comment.ds"], ["file", ["str", "# nothing"]]], [["bytes.ds"], ["file", ["bytes", [255, 1]]]], [["d"], ["dir"]], [["d", "c.ds"], ["file", ["str", "CWD; sys@include \"e.ds\""]]], [["d", "e.ds"], ["file", ["str", "let a = 55; pwd"]]], [["e.ds"], ["file", ["str", "let a = 66"]]]]
    names = ["a", "b", "i", "bad", "fail", "fn", "mod", "empty", "comment", "bytes", "d/c", "d/e", "e", "nothing", "d"]
    acts = ["sys@include \"%s.ds\"" % n for n in names] + ["sys@import \"%s.ds\"" % n for n in names] + ["let m = sys@import \"mod.ds\"", "(m@get) 1", "(m@set) 5", "cd \"d\"", "cd \"..\"", "let a = 3", "(k -> sys@include \"e.ds\") 1", "err@try (sys@include \"fail.ds\") (e -> e@code)"]
    probe = ["[a, b, c, r]", "pwd"]
    out = [[x, y] + probe for x, y in itertools.product(acts, repeat=2)]
    out += [[ctx.rng.choice(acts) for _ in range(ctx.rng.randint(3, 6))] + probe for _ in range(ctx.n(100, 4000))]
    return [prog.session(r, tree=t, msg=True, cwds=True) for r in out]


def randoms(ctx, n):
    out = []
    for s in proggen.sessions(ctx, n, lo=2, hi=4, effects=0.2):
        p = s[-1]
        if not one(p):
            p = "{ %s }" % p
        w = ctx.rng.choice(ways(p))
        out.append(prog.session(s[:-1] + w + ["[x, y, z, f, g, h, m, t]"], tree=tree(p), msg=True))
    return out


def check(ctx):
    ctx.laws("QuoteLaw EvalLaw ExecLaw ParseLaw FileLaw", ctx.n(1, 3), "laws of quote, eval, exec, parse and files")
    reqs = [prog.session(FIRST + w + PROBES, tree=tree(p), msg=True, show=True, cwds=True) for p in PROGRAMS for w in ways(p)]
    prog.judge(ctx, reqs, "every way to run a program")
    prog.judge(ctx, [prog.session(FIRST + [x] + PROBES[:1], tree=tree("x"), msg=True, show=True) for x in NEST], "nested quotes")
    prog.judge(ctx, files(ctx), "files running files")
    prog.judge(ctx, randoms(ctx, ctx.n(600, 15000)), "random programs run each way")
