import itertools

from .. import shell
from ..shell import T, run
from .c17 import DEFS, EFFECTS, FAILS, REJECTS, SPREAD, VALUES

TECHNIQUE = "TLA+ specification of a whole run of dunesh (file, inline code, prelude, prompt, exit); TLC proves the order for all command lines and replays recorded runs of the real program"
LEVEL_NOTE = ("TLC checks all combinations of 8 kinds of files, 8 kinds of inline code, -i and 4 inputs for the order of what runs, what is read, reported and returned; the real "
              "program is run on all combinations of a larger set of files, words, flags in every order and inputs, and on random files and words; its output, its reports, the "
              "files it left and its status are compared with the specification.")
TREE = T(("ok.dune", "let x = 1; println \"file\"\n"), ("bad.dune", "println \"never\"; let x = (\n"), ("err.dune", "println 1; let x = 2; zz 1; println 3\n"),
         ("exit.dune", "println 1; let x = 4; exit 3; println 2\n"), ("value.dune", "5"), ("empty.dune", ""), ("note.dune", "# only a note"), ("report.dune", "let x = 5; let report = v -> { print \"<\"; print v; println \">\" }"),
         ("broken.dune", "let report = v -> zz v"), ("cd.dune", "cd \"d\"; let x = CWD"), ("d",), ("d/in.dune", "vwhere; let x = 6"), ("raw", ["file", ["bytes", [112, 255, 10]]]), ("a b.dune", "println \"blank\"; let x = 7"),
         ("é.dune", "println \"é\"; let x = 8"), ("link", ["link", "ok.dune"]), ("lost", ["link", "nowhere"]), ("prog.dune", "vargv 1 \"a b\"; vstatus 3; nosuch 1; println 2"), ("write.dune", "\"data\" >> \"out\"; let x = 9; zz 1"), ("crlf.dune", "println 1\r\n;println 2\r\n"),
         ("lines.dune", "let f = a -> {\n  println a;\n  a + 1\n};\n# note\nf 2;\nlet x = f 3\n"), ("deep.dune", "let f = n -> f (n + 1); f 1"), ("mid.dune", "let x = 1;\nprintln x;\nlet y = 5 5;\nprintln \"no\"\n"), ("late.dune", "println \"never\"\n\n\n}\n"), ("noend.dune", "print 1"), ("sym.dune", "'vwhere"), ("input.dune", "let x = input \"ask \"; println x"), ("exit2.dune", "let f = a -> { exit a; 5 }; let r = [1, f 256]"), ("inc.dune", "sys@include \"ok.dune\"; x + 1; sys@import \"none.dune\""))
FILES = ["", "none.dune", "d", "d/in.dune", "./ok.dune", "d/../ok.dune", "ok.dune/x"] + [n[0][0] for n in TREE if n[0] != ["d"] and len(n[0]) == 1]
WORDS = [(), ("x",), ("println", "x"), ("1", "+", "1"), ("let y = x;", "y"), ("let y =", "5"), ("zz 1",), ("println 1;", "zz 1;", "println 2"), (")",), ("println 1; {",), ("exit",), ("exit", "4"), ("None",), ("\"text\"",), ("'vwhere",), ("vwhere",), ("_ ~> 5",), ("[1,", "2]"), ("let report = v -> zz v",), ("let report = 5; 6",), ("report 7",), ("# note",), ("",), (" ",), ("a b", "c"), ("vargv a", "\"b  c\"", "d"), ("cd", "\"d\""), ("input \"?\"",), ("{a=1}",), ("{ let x = 3; x }",), ("\"a", "b\""), ("print 1",), ("5;", ";"), ("é",), ("println \"a\nb\"",), ("let x = 1;\n", "x"), ("let prompt = _ -> \"new> \"",), ("eval 'x", ";", "exec '(let q = 1)", ";", "q")]
INPUTS = [[], ["x", "y"], ["println x", "exit 7", "println 1"], ["{", "x", "}", "zz 1", ")", "", "let z = 1", "z"]]
ORDERS = ["fx", "fix", "fxi", "if x", "f --", "xx"]


def written(rng, f, e, i):
    """The command line, in one of its forms."""
    x = rng.choice(["-x", "--exec"])
    flag = rng.choice(["-i", "--interactive"]) if i else None
    argv = [f] if f else []
    if flag and rng.random() < 0.5:
        argv.insert(rng.randint(0, len(argv)), flag)
        flag = None
    if e:
        k = rng.random()
        if k < 0.15 and len(e) == 1 and e[0]:
            argv.append("--exec=" + e[0])
        elif k < 0.3 and len(e) > 1:
            argv += [x, e[0], x] + list(e[1:])
        else:
            argv += [x] + list(e)
    if flag:
        argv.append(flag)
    return argv


def one(rng, f, e, i, lines, **k):
    return run(f, e, i, lines, k.pop("tree", TREE), argv=written(rng, f, e, i), **k)


def combos(ctx):
    rng, out = ctx.rng, []
    for f, e in itertools.product(FILES, WORDS):
        for i in (False, True):
            if ctx.thorough or rng.random() < 0.45:
                out.append(one(rng, f, e, i, rng.choice(INPUTS), term=rng.choice(["dumb", "xterm"]), prelude=rng.choice(["", "", "println \"prelude\"; let p = 1"])))
    return out


def randoms(ctx):
    rng, out = ctx.rng, []

    def program(n):
        parts = []
        for _ in range(rng.randint(0, n)):
            k = rng.random()
            parts.append(rng.choice(VALUES if k < 0.2 else DEFS if k < 0.45 else EFFECTS if k < 0.75 else FAILS if k < 0.8 else REJECTS if k < 0.82 else ["exit 2", "println (exit 3)"] if k < 0.84 else SPREAD).replace(" # note", ""))
        return parts
    for _ in range(ctx.n(500, 20000)):
        text = rng.choice(["; ", ";\n", "\n;"]).join(program(6)) + rng.choice(["", "\n", ";\n", "\n# note"])
        words = (" ; ".join(program(3))).split(" ")
        if any(w.startswith("-") for w in words) or words == [""] or rng.random() < 0.3:
            words = ()
        out.append(one(rng, "main.dune" if rng.random() < 0.8 else "", words, rng.random() < 0.4, rng.choice(INPUTS), term=rng.choice(["dumb", "xterm"]),
                       tree=T(("main.dune", text), ("d",), ("f", "one\ntwo\n"), ("lib.dune", "let fromlib = 5; println \"lib\""), ("bad.dune", "let x = ("))))
    return out


def check(ctx):
    ctx.model_check("DesignCli", what="what runs, in which order, for every command line", at_least=1000)
    shell.judge(ctx, combos(ctx), "files, words and flags", max_skip=0.3)
    shell.judge(ctx, randoms(ctx), "random files and words", max_skip=0.3)
