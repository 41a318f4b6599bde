import itertools

from .. import pool, prog

TECHNIQUE = "TLA+ specification of program launch (arguments, variables, directory, what is missing or forbidden); TLC replays recorded sessions with real programs"
LEVEL_NOTE = ("TLC checks on the specification what a program is given, in all states of histories of programs. dune then launches recording programs with every kind of argument alone, in all pairs and in random lists, by name, string, path, alias and in pipes, from "
              "functions, macros and loops; with bindings of every kind and length around the limit, shadowed, inherited, removed and captured; in every "
              "directory; and programs that are missing, not executable, directories, found by PATH, or end with a status. What each received, its output, the "
              "error and what ran after it are compared with the specification.")


def T(*nodes):
    return [[n[0].split("/"), ["dir"] if len(n) == 1 else n[1] if isinstance(n[1], list) else ["file", ["str", n[1]]]] for n in nodes]


TREE = T(("bin",), ("bin/vargv", ["tool"]), ("bin/vwhere", ["tool"]), ("bin/venv", ["tool"]), ("bin/plain", "text"), ("bin/sub",), ("a",), ("a/vwhere", ["tool"]), ("a/b",), ("a/b/vargv", ["tool"]), ("plain", "#!/bin/sh\necho no\n"),
         ("é",), ("é/vwhere", ["tool"]), ("vwhere", ["tool"]), ("nul", "a\0b"), ("bad", ["file", ["bytes", [255]]]), ("f", "one\ntwo\n"), ("l", ["link", "a"]), ("s.dune", "vargv in file"))
INH = {k: v for k, v in pool.clean_env("").items() if k not in ("HOME", "PATH")}
ARGS = ['a', '"a"', '"a b"', '""', '"\\n"', '"a\\nb\\n"', '"é中"', '"\\""', "\"'\"", '"$HOME"', '"*"', '*', '"~"', '~', '-l', '--long', '-', 'a.b', 'a/b', '/', '.', '..', '"-"', '"a\\tb"', '"\\\\"', '" "', '"a;b"', '"`x`"', '"$(x)"', '"#"', '"|"', '">"', '"<"', '"&"', '"%s"', '"{}"',
        "1", "-1", "1.5", "2.0", "True", "False", "None", "(None)", "(-1)", "9223372036854775807", "[1, 2]", "[]", "[[]]", "[None]", "[\"a b\", [\"c\", [None, \"\"]]]", "[1, [2, [3]]]", "{a=1}", "{}", "{a=\"x y\", b=[1]}", "(1 + 2)", "(\"a\" + \"b\")", "x", "y", "s1", "l1", "m1", "n1", "und", "(x)", "'x", "'und", "''a", "'(1 + 2)", "'\"s\"",
        "(q -> q)", "(q ~> q)", "len", "string@len", "(fs@read \"f\")", "(fs@read \"bad\")", "(fs@read \"nul\")", "(vgen 3 | (q -> q))", "(1 == 1)", "[x, y]", "{ 5 }", "{ print \"e\"; 6 }", "{ let z1 = 8; z1 }", "(l1 @ 0)", "m1@k", "(f1 2)", "f1", "(if x 1 else 2)", "(for i in [1, 2] { i * 2 })", "([\"a\"] + [\"b\"])", "('(a b))", "[q -> 1]", "(let w = 5)", "CWD", "(\"x\" * 40)"]
BADARGS = ["(1 // 0)", "(nosuch 1)", "[1, (1 // 0)]", "(5 5)", "{ print \"e\"; zz 1 }"]
BIND = ["let x = 5", "let y = \"b c\"", "let s1 = \"\"", "let l1 = [1, \"a b\"]", "let m1 = {k=\"v w\"}", "let n1 = None", "let f1 = (q -> [q, x])"]
LONG = ["1023", "1024", "1025", "3000"]
NAMES = ["x", "y", "s1", "l1", "m1", "n1", "f1", "und", "USER", "LANG", "TERM", "CWD", "v1", "v2", "q", "HOME0", "w"]
VALS = ["(fs@read \"nul\")", "[(fs@read \"nul\")]", "5", "\"t\"", "\"\"", "[1, 2]", "[]", "{a=1}", "None", "True", "1.5", "'s", "'(a b)", "\"a\\nb\"", "\"é\"", "(q -> q)", "(q ~> x)", "\"a=b\"", "(1 + 1)", "(fs@read \"f\")", "[\"a b\", [3]]", "\" \""] + ["(\"z\" * %s)" % n for n in LONG] + ["(\"é\" * %s)" % n for n in ("511", "512", "513")] + ["((\"z\" * 1022) + \"é\")", "((\"z\" * 1023) + \"é\")", "[(\"z\" * 1019)]", "[(\"z\" * 1020)]", "[(\"z\" * 1021)]"]
MISSING = ["nosuch", "nosuch 1", "\"nosuch\"", "\"no such\" 1", "(\"nosuch\") 1", "\"\" 1", "\" \" 1", "\"./nosuch\" 1", "\"a/nosuch\" 1", "\"no/such\" 1", "\"plain\" 1", "\"./plain\" 1", "\"plain/x\" 1", "\"./bin\" 1", "\"bin/\" 1", "\"bin/plain\" 1", "\"bin/sub\" 1", "\"vargv \" 1", "\"VARGV\" 1", "\"vargv a\"", "\"vargv a\" 1", "\"*\" 1", "\"é\" 1", "\"-\" 1", "a.b 1", "-x 1", "'nosuch 1", "n_o 1", "\"../r/plain\" 1", "\"s.dune\" 1", "\"./s.dune\" 1", "(CWD + \"/plain\") 1", "(CWD + \"/none\") 1", "\"l/nosuch\" 1", "5 1", "None 1", "[1] 1", "True 1", "{a=1} 1"]
PATHS = ["\"./vwhere\" 1", "\"a/vwhere\" 1", "\"bin/vargv\" 1 \"a b\"", "\"./a/b/vargv\" x y", "(CWD + \"/bin/vargv\") 2", "\"bin/../vwhere\" 1", "\"é/vwhere\" 1", "\"l/vwhere\" 1", "\"l/b/vargv\" 3", "\"bin//vargv\" 4", "bin/vargv 5", "./vwhere 1", "\"../a/vwhere\" 1", "\"vargv\" 1", "\"vwhere\" 1", "\"bin/venv\" x CWD"]
CALLS = ["%s %s", "%s %s", "%s %s", "\"%s\" %s", "(\"%s\" %s)", "'%s %s", "(_ -> %s %s) 1", "(x -> %s %s) \"inner\"", "(x ~> { %s %s }) \"inner\"", "%s %s | vcat", "\"in\" | %s %s", "for i in [1, 2] { %s %s }", "eval '(%s %s)", "if True { %s %s }", "err@try (%s %s) (e -> e@code)", "print \"<\"; %s %s; print \">\"", "{ %s %s; 5 }", "[1, (%s %s)]", "let r = (%s %s)", "fn@map (k -> %s k %s) [1, \"p q\"]", "list@foldl (k -> j -> %s j %s) 0 [1, 2]"]
WAYS = ["(_ -> { %s }) 1", "(x -> { %s }) \"inner\"", "(und ~> { %s }) \"inner\"", "(y -> x -> { %s }) 1 2", "fn@map (x -> { %s }) [1, [2]]", "eval '{ %s }", "for x in [1, 2] { %s }", "err@try { %s } (e -> e@code)", "(CWD -> { %s }) 1", "g1 1"]


def args(rng, n):
    return " ".join(rng.choice(ARGS) for _ in range(n))


def sessions(ctx):
    rng, ps, out = ctx.rng, [], []
    # every argument, alone, in pairs and in lists
    for a in ARGS:
        for c in ("vargv %s", "vargv %s | vcat", "\"vargv\" p %s q", "(_ -> vargv %s) 1"):
            ps.append(c % a)
    for a, b in itertools.product(ARGS, repeat=2):
        if ctx.thorough or rng.random() < 0.2:
            ps.append("vargv %s %s" % (a, b))
    for _ in range(ctx.n(700, 20000)):
        ps.append(rng.choice(CALLS).replace("%s", "vargv", 1).replace("%s", args(rng, rng.choice([0, 1, 2, 3, 5, 9]))))
    for b in BADARGS:
        for c in CALLS:
            ps.append(c.replace("%s", "vargv", 1).replace("%s", rng.choice(["", "a ", "{ print \"1st\"; 1 } "]) + b + rng.choice(["", " c", " { print \"no\"; 1 }"])))
    for m in MISSING:
        ps += [m, m + " { print \"arg\"; 1 }", "err@try (%s) (e -> [e@code, e@message])" % m, "println 1; %s; println 2" % m, m + " | vcat", "1 | " + m, m + " (fs@read \"nul\")"]
    ps += ["vstatus %s" % n for n in ("0", "1", "255", "256", "-1", "")] + ["vstatus 1 | vcat", "vargv 1 | vstatus 3", "vstatus 7; 5", "[(vstatus 1), 2]", "if (vstatus 1) 1 else 2", "vargv", "\"vargv\"", "vnull 1; vargv 2", "al 1", "al 1 | vcat", "1 | al", "al2 2", "(al)"]
    rng.shuffle(ps)
    for s in prog.packed(ps, 6):
        out.append(BIND + ["let al = 'vargv", "let al2 = \"vargv\""] + s)
    # programs by path, in every directory
    for d in (".", "a", "a/b", "bin", "é", "l", "nowhere"):
        for part in prog.packed(PATHS + MISSING[4:30], 7):
            out.append(BIND + ["cd \"%s\"" % d] + part + ["vwhere"])
    # variables
    for n, v in itertools.product(NAMES, VALS):
        if ctx.thorough or rng.random() < 0.5:
            s = BIND + ["let g1 = (_ -> { venv x y %s; vargv x })" % n, "let %s = %s" % (n, v), "venv %s %s" % (n, " ".join("\"%s\"" % k for k in NAMES if k != n)) if v[0] != "(" else "venv \"%s\"" % n, "venv \"%s\"" % n]
            s += [rng.choice(WAYS).replace("%s", "venv \"x\" \"und\" \"%s\" \"y\"" % n), "1 | venv \"%s\" \"x\"" % n, rng.choice(["unbind \"%s\"" % n, "unbind '%s" % n, "sys@unset %s" % n, "let %s = 1" % n, "sys@set %s 3" % n, "(k -> { let %s = k })  1" % n, "(k ~> { let %s = k }) 1" % n]), "venv \"%s\" \"x\"" % n, "g1 1"]
            out.append(s)
    for p in ("CWD + \"/bin\"", "CWD + \"/nowhere\"", "CWD + \"/plain\"", "CWD + \"/a/b/\"", "CWD + \"/l/b\"", "CWD"):
        out.append(BIND + ["let PATH = %s" % p, "vargv 1", "vwhere", "nosuch 1", "plain 1", "sub 1", "\"./vwhere\" 1", "1 | vargv 2", "venv x", "(_ -> vargv 3) 1", "\"vargv\" 4", "unbind PATH", "unbind \"PATH\"", "vargv 5", "vargv 6"])
    return out


def randoms(ctx, n):
    rng, out = ctx.rng, []
    for _ in range(n):
        s = BIND + ["let al = 'vargv", "let al2 = \"vargv\"", "let g1 = (_ -> { venv x y; vargv x y })"]
        for _ in range(rng.randint(3, 8)):
            r = rng.random()
            name = rng.choice(NAMES)
            call = rng.choice(["vargv " + args(rng, rng.randint(0, 4)), "venv " + " ".join("\"%s\"" % rng.choice(NAMES) for _ in range(3)), "vwhere", rng.choice(PATHS), rng.choice(MISSING), "al " + args(rng, 2), "g1 1", "vstatus 3"])
            s.append("let %s = %s" % (name, rng.choice(VALS[:20])) if r < 0.25 else "cd \"%s\"" % rng.choice(["a", "..", "bin", "é", "nowhere", "b"]) if r < 0.35 else "unbind \"%s\"" % name if r < 0.42
                     else rng.choice(WAYS).replace("%s", call) if r < 0.65 else call)
        out.append(s)
    return out


def check(ctx):
    ctx.laws("RunLaw", ctx.n(1, 2), "what a program is given")
    for name, ss in (("arguments, variables and programs", sessions(ctx)), ("random sessions", randoms(ctx, ctx.n(400, 15000)))):
        prog.judge(ctx, [prog.session(s, msg=True, cwds=True, tree=TREE, inh=INH) for s in ss], name, max_skip=0.3)
