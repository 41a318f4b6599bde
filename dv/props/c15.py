import itertools

from .. import prog

TECHNIQUE = "TLA+ specification of pipelines over programs, functions, macros, values and files; TLC proves the promises and replays recorded sessions with real programs"
LEVEL_NOTE = ("TLC checks on the specification that a pipe is the composition of its stages on the text between them, in all states of histories of programs. dune then runs every pair of source and stage, triples of stages, with real programs which read all, some or none of their input, write more than they read "
              "or only after reading, and payloads from nothing to 2 MB around the capacity of a pipe, text and binary; the output, the value of the pipeline, the "
              "files written and that it finishes are compared with the specification.")
BIG = [4096, 8192, 65535, 65536, 65537, 131072, 200000, 1000000, 2097153]


def T(*nodes):
    return [[n[0].split("/"), ["dir"] if len(n) == 1 else n[1] if isinstance(n[1], list) else ["file", ["str", n[1]]]] for n in nodes]


TREE = T(("a", "one\ntwo\n"), ("e", ""), ("b", ["file", ["bytes", [0, 255, 10, 128, 13, 10]]]), ("u", "é中\n"), ("n", "no end"), ("d",), ("g", ["file", ["gen", 65536]]), ("h", ["file", ["gen", 1000000]]), ("k", "z" * 300), ("w", " a,b ,c\n\n"))
VALUES = ['"text"', '""', '"é中\\n"', '"a\\nb\\n"', "5", "2.5", "True", "None", "[1, \"a\"]", "[]", "{a=1}", "'(1 + 2)", "(fs@read \"b\")", "(fs@read \"a\")", "(fs@read \"u\")", "(1 + 2)", "[\"x\"] @ 0", "(x -> x)"]
SOURCES = VALUES + ["vargv a b", "vargv", "vargv \"a b\" 5", "vbytes 255 0 10", "vbytes 65 66", "vbytes 65 0 66", "vbytes 0", "vbytes 32 65 13 10 0", "vbytes 27 91 49 109 127 8 65 10 10", "vbytes", "vnull", "vstatus 3", "<< \"a\"", "<< \"b\"", "<< \"e\"", "<< \"none\"", "nosuch", "nosuch 1", "(vargv q)", "'(vargv q)", "'vargv", "vgen 5000", "vgen 16", "vgen 0", "(zz 1)", "1 // 0", "print \"p\"", "vwhere", "\"vargv\" s", "t 1", "al", "al x", "{ print \"d\"; \"v\" }", "(vgen 10 | vupper)", "venv HOME x1"]
STAGES = ["vcat", "vupper", "vtake 3", "vtake 0", "vcount", "vdup", "vnull", "vlast", "vstatus 2", "vargv z", "(x -> x)", "(x -> x + \"!\")", "(x -> [x, x])", "(x ~> let kept = x)", "(x ~> { let kept = x; x })", "(x -> { println x; 7 })", "len", "string@split \"\\n\"", "(fn@map (y -> y))", "print", "t", "al", "al y", "(x -> vcat)", "(x -> (x | vcount))", "(x -> None)", "(x -> 'vcat)",
          "nosuch", "5", "\"s\"", "(x -> zz x)", "(x -> 1 // 0)", "m", "f1", "f2 1", "(vcat)", "'(vupper)", "'vcat", "\"vcat\"", "(\"vcat\")", "'vtake 2", "string@to-upper", "lines", "(a -> b -> [a, b]) 0", "vargv kept", "(x -> { x >> \"o2\"; x })", "vwhere", "venv kept x1", "list@list", "None", "[1]", "vcat | vdup", "{ vcat }"]
ENDS = [">> \"o\"", ">>> \"a\"", ">> \"d\"", ">>> \"none\"", ">> (\"o\" + \"p\")", ">> \"a\"", ">>> \"b\""]
SETUP = ["let x1 = 1", "let t = (x -> \"<\" + x)", "let al = 'vcat", "let m = (x ~> { let kept = x; kept })", "let f1 = (x -> { print \"f1\"; x })", "let f2 = (a -> b -> { print a; b })"]
# The data is long: only what handles it as a whole.
LONGSRC = ["vgen %d", "(fs@read \"g\")", "<< \"h\"", "(vgen %d | vcat)", "(vgen %d | (x -> x))", "'(vgen %d)", "fs@read \"h\""]
LONG = ["vcat", "vtake 5", "vtake 100000", "vtake 0", "vcount", "vdup", "vnull", "vstatus 1", "vargv z", "(x -> x)", "(x ~> { let kept = x; x })", "(x -> { println 1; x })", "(x -> (x | vcount))", "(x -> { x >> \"o2\"; x })", "(x -> { x | vtake 9 })", "vgen %d", "f1", "(x -> None)", "nosuch", "(x -> { x | vnull; x })", "(x -> zz x)"]
LONGEND = [["vcount"], ["vtake 7"], ["vnull"], [">> \"o\""], [">>> \"g\""], [">>> \"e\""], ["(x -> { x | vcount; 5 })"], ["vcat", "vcount"], []]


def sessions(ctx):
    rng = ctx.rng
    ps = []
    for a, b in itertools.product(SOURCES, STAGES + ENDS):
        if ctx.thorough or rng.random() < 0.9:
            ps.append(pipe([a, b]))
    for a, b, c in [(rng.choice(SOURCES), rng.choice(STAGES), rng.choice(STAGES + ENDS)) for _ in range(ctx.n(1200, 40000))]:
        ps.append(pipe([a, b, c]))
    for _ in range(ctx.n(350, 20000)):
        ps.append(pipe([rng.choice(SOURCES)] + [rng.choice(STAGES) for _ in range(rng.randint(2, 5))] + [rng.choice(STAGES + ENDS)]))
    wrap = ["%s", "%s", "%s", "%s", "let r = (%s)", "[(%s), 1]", "err@try (%s) (e -> e@message)", "(_ -> %s) 1", "for i in [1, 2] { %s }", "if (%s) 1 else 2", "(_ ~> { %s }) 1", "eval '(%s)", "(%s) == \"x\"", "let f = x -> { x | vcat }; f (%s)"]
    ps = [rng.choice(wrap) % p for p in ps]
    rng.shuffle(ps)
    return [SETUP + s + ["<< \"o\"", "fs@read \"a\""] for s in prog.packed(ps, 7)]


def pipe(parts):
    out = parts[0]
    for p in parts[1:]:
        out += (" " if p.startswith(">") else " | ") + p
    return out


def long_sessions(ctx):
    rng, ps = ctx.rng, []

    def put(p):
        return p % rng.choice(BIG) if "%d" in p else p
    for a, b in itertools.product(LONGSRC, LONG):
        for n in (BIG if ctx.thorough else rng.sample(BIG, rng.random() < 0.7)):
            ps.append(pipe([a % n if "%d" in a else a, put(b)] + rng.choice(LONGEND)))
    for n, e in itertools.product(BIG, LONGEND):
        ps.append(pipe(["vgen %d" % n] + e))
        ps.append(pipe(["vgen %d" % n, "(x -> x)"] + e))
        ps.append(pipe(["vgen %d" % n, "(x -> x)", rng.choice(["vcat", "vdup", "vtake %d" % n, "vtake %d" % (n - 1)])] + e))
    for _ in range(ctx.n(80, 5000)):
        ps.append(pipe([put(rng.choice(LONGSRC))] + [put(rng.choice(LONG)) for _ in range(rng.randint(1, 5))] + rng.choice(LONGEND)))
    return [SETUP[3:5] + [p, "fs@read \"o\""] for p in ps]


def check(ctx):
    ctx.laws("PipeLaw", ctx.n(1, 2), "a pipe is the composition of its stages")
    for name, ss, k in (("sources and stages", sessions(ctx), 0.35), ("long data", long_sessions(ctx), 0.45)):
        prog.judge(ctx, [prog.session(s, show=name[0] == "s", msg=True, cwds=True, tree=[t for t in TREE if name[0] == "l" or t[1][0] != "file" or t[1][1][0] != "gen"]) for s in ss], name, max_skip=k)
