import itertools

from .. import prog

TECHNIQUE = "TLA+ specification of the working directory in the evaluator; TLC proves the promises in all states of short histories and replays recorded sessions"
LEVEL_NOTE = ("TLC checks on the specification that cd moves the shell to the canonical directory or changes nothing, in all states of histories up to 2 programs. "
              "dune then runs every way of changing directory (cd, os@cd, sys@cd, in functions, macros, loops, quoted code, files, pipes) with every kind of "
              "path, each followed by every relative use of the directory, all pairs of moves, and random sessions; pwd, CWD, sys@cwd, the directory programs start in, "
              "the directory of the process, and the file tree are compared after every step.")


def T(*nodes):
    return [[n[0].split("/"), ["dir"] if len(n) == 1 else n[1] if isinstance(n[1], list) else ["file", ["str", n[1]]]] for n in nodes]


HERE = "println CWD (sys@cwd _); let from = CWD; fs@exists? \"x\""
TREE = T(("a",), ("a/b",), ("a/b/c",), ("a/b/x", "in b"), ("a/x", "in a"), ("x", "top"), ("é d",), ("é d/x", "wide"), ("f", "text"), ("k", ["locked"]), ("w", ["odd"]), ("o", ["link", "k"]), ("l", ["link", "a/b"]), ("m", ["link", "f"]), ("n", ["link", "nowhere"]),
         ("a/l", ["link", ".."]), ("a/s.dune", HERE), ("s.dune", HERE + "; cd \"a\"; let there = CWD; sys@cwd _"), ("go.dune", "cd \"a/b\""), ("a/b/s.dune", "let f = d -> { cd d; CWD }; f \"..\""), ("bad.dune", "cd \"a\"; 1 // 0"))
DIRS = ["a", "a/b", ".", "..", "./a", "a/", "a/.", "a/..", "a/../a/b/../b", "a//b", "l", "l/..", "l/c", "a/l", "a/l/a", "é d", "b", "c", "../..", ""]
BAD = ["w", "w", "w/x", "k", "o", "k/", "k/x", "f", "x", "m", "n", "f/", "f/x", "nowhere", "nowhere/..", "a/nope", "~", "-", "*", "$HOME", " ", "A"]
ABS = ["(CWD + \"/a\")", "(CWD + \"/a/../a/b/\")", "(CWD + \"/f\")", "(CWD + \"/no\")", "(CWD + \"/../r/l\")"]
ODD = ["5", "None", "[\"a\"]", "{a=1}", "'a", "a", "(x -> x)", "True", "1.5", "'(a)", "(zz 1)", "\"a\" \"b\"", "", "{ cd \"a\"; \"b\" }", "{ print CWD; \"a\" }"]
CD = ["cd %s", "os@cd %s", "sys@cd %s"]
WAYS = ["(d -> cd d) %s", "(d ~> cd d) %s", "(d -> { cd d; println CWD; vwhere; fs@write \"w\" d; CWD }) %s", "(d ~> { sys@cd d; println CWD; vwhere; fs@write \"w\" d; CWD }) %s", "(d -> { sys@cd d; sys@cwd _ }) %s", "for d in [%s] { cd d; CWD }", "for d in [%s, \"..\"] { cd d }", "if True { cd %s }",
        "eval '(cd %s)", "exec '(cd %s)", "eval '{ cd %s; println CWD; vwhere }", "err@try (cd %s) (e -> CWD)", "err@try { cd %s; 1 // 0 } (e -> CWD)", "fn@map cd [%s]", "fn@map (d -> { cd d; CWD }) [%s, \"a\"]", "%s | cd", "%s | (d -> { cd d; CWD })", "%s | (d ~> { cd d; CWD })",
        "let go = (d -> { cd d; e -> { cd e; CWD } }) %s", "let p = (cd %s)", "[CWD, (cd %s), CWD]", "{ cd %s; [CWD, (fs@exists? \"x\")] }", "(_ -> CWD) (cd %s)", "((_ -> (d -> { cd d; CWD })) 1) %s", "list@foldl (acc -> d -> { cd d; acc + [CWD] }) [] [%s, \"a\"]", "fn@curry (d -> e -> { cd e; CWD }) 2 1 %s", "(d -> d ~> { cd d; CWD }) 1 %s"]
USES = ["pwd", "CWD", "sys@cwd _", "vwhere", "fs@read \"x\"", "fs@write \"new\" CWD", "\"t\" >> \"out\"", "<< \"x\"", "fs@exists? \"b\"", "fs@is-dir? \"c\"", "fs@ls \".\"", "fs@mkdir \"d/e\"", "sys@include \"s.dune\"", "sys@import \"s.dune\"", "fs@canon \".\"", "fs@canon \"l\"",
        "vwhere | vcat", "\"x\" | vwhere", "fs@mv \"x\" \"y\"", "fs@cp \"x\" \"b/y\"", "fs@rm \"x\"", "fs@append \"x\" \"+\"", "fs@head \"x\" 1", "f2 1", "g2 1", "k2 1 2", "k2 1 2", "(k2 1) 2", "k3 1 2 3", "fn@curry k2 2 1 2", "(_ -> [CWD, (sys@cwd _), (fs@exists? \"x\")]) 1", "(_ ~> [CWD, (sys@cwd _), (fs@exists? \"x\")]) 1", "fn@map (p -> fs@exists? p) [\"x\", \"b\", \"a\"]", "eval 'CWD", "from",
        "(_ -> vwhere) 1", "vargv CWD (sys@cwd _)", "venv CWD", "fs@is-file? \"s.dune\"", "(a -> b -> CWD) 1 2", "fs@tree 1 \"b\"", "fs@rmdir \"c\"", "h2", "sys@include \"go.dune\"", "sys@import \"go.dune\"", "err@try (sys@include \"bad.dune\") (e -> CWD)"]
SETUP = ["let k2 = a -> { print CWD (sys@cwd _) (fs@exists? \"x\") (len (fs@ls \".\")); vwhere; b -> { print CWD; [(fs@exists? \"b\"), (sys@cwd _)] } }", "let k3 = a -> { let o = CWD; b -> { let p = fs@read \"x\"; c -> [o, p, CWD] } }", "let f2 = _ -> [CWD, (fs@exists? \"x\"), (sys@cwd _)]", "let g2 = _ ~> [CWD, (fs@exists? \"x\"), (sys@cwd _)]", "let h2 = '{ vwhere; CWD }"]
AFTER = ["sys@include \"go.dune\"", "sys@import \"go.dune\"", "sys@include \"s.dune\"", "sys@import \"s.dune\"", "err@try (sys@include \"bad.dune\") (e -> CWD)", "sys@import \"bad.dune\"", "let CWD = \"elsewhere\"", "fs@rmdir \"a/b/c\"", "fs@mv \"a\" \"z\"", "fs@mkdir \"a/new\"", "cd \"a/new\"", "(CWD -> CWD) 5", "(x -> { let CWD = \"/\"; sys@cwd _ }) 1", "unbind CWD", "unbind 'CWD", "sys@set CWD 5"]


def quoted(ps):
    return ["\"%s\"" % p for p in ps]


def sessions(ctx):
    rng, out = ctx.rng, []
    every = quoted(DIRS + BAD) + ABS + ODD
    # every path by every command, each then used
    for p in every:
        for c in CD:
            for use in ([rng.sample(USES, 6)] if not ctx.thorough else [rng.sample(USES, 8) for _ in range(6)]):
                out.append(SETUP + [c % p] + use)
        out.append(SETUP + ["cd \"a\"", "cd " + p, "pwd", "vwhere", "fs@read \"x\"", "f2 1", "g2 1"])
        out.append(SETUP + ["cd \"a/b\"", "sys@cd " + p, "pwd", "vwhere", "fs@read \"x\"", "f2 1", "g2 1"])
    for w in WAYS:
        for p in rng.sample(every, len(every) if ctx.thorough else 14) + ["\"a\"", "\"..\"", "\"a/b\"", "\"f\"", "\"nowhere\""]:
            out.append(SETUP + [w % p, "pwd", "sys@cwd _", "vwhere", "fs@exists? \"x\"", "fs@read \"x\"", rng.choice(USES)])
    # every use of the directory in every directory
    for d in ("a", "a/b", "é d", "l", "a/l/a", ".", "f"):
        for i in range(0, len(USES), 4):
            for c in ("cd", "sys@cd"):
                out.append(SETUP + ["%s \"%s\"" % (c, d)] + USES[i:i + 4] + ["pwd"])
    # two moves in a row
    moves = quoted(["a", "a/b", "..", ".", "l", "b", "c", "f", "k", "nowhere", "l/..", "é d", "../a"])
    for p, r in itertools.product(moves, repeat=2):
        out.append(SETUP + ["cd " + p, rng.choice(CD + WAYS) % r] + ["pwd", "vwhere"] + rng.sample(USES, 3))
    for a in AFTER:
        for _ in range(ctx.n(4, 20)):
            out.append(SETUP + ["cd \"%s\"" % rng.choice(["a", "a/b", "."]), a] + rng.sample(USES, 5) + ["pwd", "f2 1"])
    return out


def randoms(ctx, n):
    rng, out = ctx.rng, []
    every = quoted(DIRS) * 3 + quoted(BAD) + ABS + ODD[:6]
    for _ in range(n):
        s = list(SETUP)
        for _ in range(rng.randint(4, 12)):
            r = rng.random()
            s.append(rng.choice(CD) % rng.choice(every) if r < 0.3 else rng.choice(WAYS) % rng.choice(every) if r < 0.5 else rng.choice(AFTER) if r < 0.6 else rng.choice(USES))
        out.append(s)
    return out


def check(ctx):
    ctx.laws("CdLaw CwdLaw", 2, "cd moves the shell to a canonical directory or changes nothing")
    for name, ss in (("moves and uses", sessions(ctx)), ("random sessions", randoms(ctx, ctx.n(700, 20000)))):
        prog.judge(ctx, [prog.session(s, show=True, msg=True, cwds=True, tree=TREE) for s in ss], name, max_skip=0.35)
