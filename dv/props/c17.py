import itertools

from .. import shell
from ..shell import T, run

TECHNIQUE = "TLA+ specification of the prompt (lines, entries, what is shown); TLC proves the session is its entries, and replays recorded runs of the real program"
LEVEL_NOTE = ("TLC proves that every sequence of up to 3 (thorough 4) lines of a vocabulary does what its complete entries do one after another; the real program is given every "
              "sequence of 2 (thorough 3) lines of a vocabulary and random sessions of entries spread over lines, failing and rejected entries, redefined prompts and reports, programs, "
              "files and input read by an entry; all it printed (with the prompts), reported, wrote and its status are compared with the specification.")
TREE = T(("d",), ("d/inner", "deep\n"), ("f", "one\ntwo\n"), ("lib.dune", "let fromlib = 5; println \"lib\""), ("bad.dune", "let x = ("))
VOCABULARY = ["let x = 1", "x", "{", "}", "x }", "", ")", "zz 1", "1 +", "2", "_ ~> { let x = 8; x }", "'vwhere", "exit 3", "unbind 'x", "println x", "\"", "cd \"d\"", "x -> x", "# no", "None", "let x ="]
VALUES = ["1", "1 + 1", "2.5", "True", "None", "\"text\"", "\"é中\"", "\"\"", "[1, \"a\"]", "[]", "x -> x + 1", "'(a + b)", "''x", "len", "(1)", "\"a\\nb\"", "1 == 1", "[x, y]", "'x", "x", "y", "f 1", "m", "m 2", "f", "pwd", "CWD", "if x 1 else 2", "(fs@read \"f\")", "x == y"]
DEFS = ["let x = 1", "let y = \"t\"", "let f = a -> a + 1", "let m = a ~> { let y = a; a }", "let x = x + 1", "let f = a -> { println a; a }", "let m = _ ~> zz 1", "let m = _ ~> { let x = 9; None }", "let m = _ ~> vwhere", "let m = a ~> a", "let g = a -> b -> a", "unbind 'x", "let none = None", "let al = 'vargv", "let s = \"vwhere\"", "let q = '(x + 1)", "let m = _ ~> 'vwhere", "let m = _ ~> exit 4"]
EFFECTS = ["println x", "print 1", "print \"no end\"", "echo 1 2", "{ println 1; println 2; 3 }", "for i in [1, 2] { println i }", "for i in [1, 2] i", "cd \"d\"", "cd \"..\"", "cd \"none\"", "fs@write \"out\" \"data\"", "\"more\" >> \"out\"", "\"more\" >>> \"out\"", "fs@rm \"out\"", "sys@include \"lib.dune\"", "sys@import \"lib.dune\"", "sys@include \"bad.dune\"", "fromlib", "vargv 1 \"a b\"", "vwhere", "'vwhere", "al", "al 3", "s", "vargv 1 | vupper", "\"in\" | vcat", "vstatus 3", "nosuch", "nosuch 1", "'nosuch", "eval q", "report 5", "report None", "fs@mkdir \"d2\"", "log@error 5", "log@info 5", "sys@set a 5"]
FAILS = ["zz 1", "1 // 0", "5 5", "{ let x = 7; zz 1; let x = 8 }", "println (zz 1)", "[1, zz 2]", "err@try (zz 1) (e -> e@code)", "f zz", "let x = (zz 1)", "for i in 5 i", "(f -> f f) (f -> f f)", "parse@expr \")\"", "m (zz 1)"]
REJECTS = [")", "}", "1 2 )", "let", "let = 5", "\"a\\qb\"", "5x", "if x", "x ->", "in", "{ ) }", "[1,, 2]", "else 5"]
SPREAD = ["{ let a = 1; a + x }", "f ( 1 + 2 )", "[ 1 , 2 , [ x , y ] ]", "let h = a -> { println a ; a + 1 }", "for i in [ 1 , 2 ] { println i ; i }", "if x { 1 } else { 2 }", "{ a = 1 , b = [ 2 ] }", "let text = \"one", "( ( 1 ) )", "1 + 2 * 3", "let z = x", "{ print 1 ; zz 1 ; print 2 }", "vargv \"a\" [ 1 , 2 ]", "\"a\" | vcat", "x -> y -> x", "let m = a ~> { let y = a ; a }", "'( 1 + x )", "println 1 ; println 2"]
PROMPTS = ["let prompt = cwd -> \"P> \"", "let prompt = cwd -> \"\"", "let prompt = cwd -> zz 1", "let prompt = 5", "let prompt = cwd -> { println \"asked\"; cwd }", "let prompt = cwd ~> { let x = 77; \"M \" }", "let incomplete_prompt = cwd -> \"... \"", "let incomplete_prompt = _ -> 1 // 0", "unbind 'prompt", "let prompt = cwd -> fmt@red \"red \"", "let prompt = _ -> None", "let prompt = _ -> exit 9", "let prompt = \"text\"", "let prompt = cwd -> [cwd]", "let incomplete_prompt = 'vwhere", "let prompt = cwd -> \"a\\nb \"",
           "let report = v -> { print \"<\"; print v; println \">\" }", "let report = v -> zz v", "unbind 'report", "let report = 5", "let report = v ~> { let last = v; println v }", "last", "let report = v -> None", "let report = v -> exit 6", "let report = 'vargv"]
ASKS = ["input \"?\"", "let v = input \"name: \"", "println (input)", "v", "input 1 2", "[input \"a\", input \"b\"]", "input (zz 1)"]
ENDS = ["exit", "exit 0", "exit 3", "quit 4", "exit 256", "exit (0 - 1)", "{ println 1; exit 5; println 2 }", "exit \"x\"", "let r = (exit 2)", "f (exit 1)"]


def spread(rng, text):
    """The entry, over several lines."""
    words = text.split(" ")
    lines, cur = [], []
    for i, w in enumerate(words):
        cur.append(w)
        if i + 1 < len(words) and rng.random() < 0.35:
            lines.append(" ".join(cur) + rng.choice(["", "", " ", "  "]))
            cur = []
            if rng.random() < 0.08:
                lines.append(rng.choice(["", " ", "# note", "\t"]))
    return lines + [" ".join(cur)]


def entry(rng, wild):
    k = rng.random()
    if k < 0.2:
        return [rng.choice(VALUES)]
    if k < 0.4:
        return [rng.choice(DEFS)]
    if k < 0.58:
        return [rng.choice(EFFECTS)]
    if k < 0.66:
        return [rng.choice(FAILS)]
    if k < 0.72:
        return [rng.choice(REJECTS)] + ([] if rng.random() < 0.2 else [""])
    if k < 0.87:
        return spread(rng, rng.choice(SPREAD))
    if k < 0.9:
        return [rng.choice(["", " ", "# note", "   # note", "\t"])]
    if k < 0.93:
        return [rng.choice(ASKS)]
    if wild and k < 0.99:
        return [rng.choice(PROMPTS)]
    return [rng.choice(VALUES) + rng.choice(["", " ", ";", " # note"])]


def sessions(ctx):
    rng, out = ctx.rng, []
    for _ in range(ctx.n(900, 40000)):
        lines, wild = [], rng.random() < 0.4
        for _ in range(rng.randint(1, 9)):
            lines += entry(rng, wild)
        if rng.random() < 0.25:
            lines.append(rng.choice(ENDS))
        lines += rng.choice([[], [], ["x", "y"], ["", "x"], ["", "[x, y]", "println x"], ["f 2"]])
        out.append(run("", (), rng.random() < 0.3, lines, TREE, term=rng.choice(["dumb", "dumb", "xterm"]), end=rng.random() < 0.85))
    for p in PROMPTS + ENDS + ASKS + FAILS + REJECTS:
        for before, after in ((["let x = 1"], ["x", "{ 5", "}", "zz 1", "", "pwd", "cd \"d\"", "None", "x -> x", "'vwhere", "last"]), (["let m = _ ~> zz 1", "{"], ["}", "", "m", "5"])):
            out.append(run("", (), True, before + [p] + after, TREE, term="dumb"))
    return out


def all_lines(ctx):
    rng, out = ctx.rng, []
    for n in (1, 2, 3):
        for ls in itertools.product(VOCABULARY, repeat=n):
            if n < 3 or ctx.thorough or rng.random() < 0.05:
                out.append(run("", (), False, list(ls) + (["x"] if n < 3 else []), TREE[:1], term="dumb"))
    return out


def preludes(ctx):
    """What the prelude leaves, and one that fails."""
    out = []
    for p in ["let x = 5", "let x = 5\n", "println \"hello\"", "let x = 5; zz 1; let x = 6", "let x = (", "exit 3", "let prompt = _ -> \"mine> \"", "cd \"d\"", "sys@include \"lib.dune\"", "", "# note\n", "let input = 5", "input \"from the prelude\"", None]:
        for term in ("dumb", "xterm"):
            for lines in (["x"], ["n", "x"], ["no", "x", "fromlib", "vwhere"], [], [""]):
                out.append(run("", (), True, lines, TREE, prelude=p, term=term))
    return out


def check(ctx):
    ctx.model_check("DesignShell", cfg="DesignShell_deep" if ctx.thorough else "DesignShell", what="a session is its complete entries in order", at_least=1000, timeout=800)
    shell.judge(ctx, all_lines(ctx), "all short sessions", max_skip=0.05)
    shell.judge(ctx, preludes(ctx), "preludes", max_skip=0.5)
    shell.judge(ctx, sessions(ctx), "random sessions", max_skip=0.3)
