import itertools

from .. import prog

TECHNIQUE = "TLA+ specification of styles, links and terminal control, read by a terminal model; TLC proves what stands on the screen and replays recorded sessions"
LEVEL_NOTE = ("A TLA+ terminal reads what the specification's functions write: TLC checks, for all texts up to a length on small screens, that styled text is the text in exactly "
              "that style with nothing leaking, that console@write puts the lines where it says and leaves cursor and screen alone, and what the cursor and mode functions do. "
              "dune then calls every style function on every kind of value and text, nested and joined, every control function with every kind and size of argument, and random "
              "sessions; results and the exact output are compared.")

STYLES = ["bold", "faint", "italics", "underline", "blink", "invert", "strike"]
COLOURS = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"]
TEXTS = ['""', '"a"', '"two words"', '"é中😀"', '"a\\nb"', '"\\n"', '"m"', '"31m"', '"[1m"', '"\\u{1b}[1mx\\u{1b}[m"', '"\\u{1b}"', '"x\\u{1b}[38;5;208my"', '"\\t"', '"a\\u{7}b"', '"%s{}"', '"long " * 30']
VALUES = ["1", "-2.5", "None", "True", "'sym", "'(1 + 2)", "[]", "[1, \"a\"]", "{a=1}", "(x -> x)", "len", "zz", "(zz 1)", "{ print 1; \"t\" }"]
NUMS = ["0", "1", "2", "7", "-1", "80", "65536", "9223372036854775807", "(-9223372036854775807 - 1)"]
ODD = ["1.0", '"1"', "None", "[1]", "'x", "(zz 1)", "{ print 1; 3 }", "True"]
PLAIN = ["console@cursor@hide", "console@cursor@show", "console@cursor@save-position", "console@cursor@restore-position", "console@mode@alternate", "console@mode@normal", "console@flush", "console@clear 1", "console@clear None", "console@clear (zz 1)", "console@width", "console@height", "clear", "clear 1"]


def styles(ctx):
    fs = ["fmt@%s" % s for s in STYLES + COLOURS] + ["fmt@dark@%s" % c for c in COLOURS]
    out, rng = [], ctx.rng
    for f in fs:
        out += ["%s %s" % (f, v) for v in TEXTS + VALUES] + [f, "%s 1 2" % f, "\"p\" | %s" % f, "fn@map %s [\"a\", 2]" % f, "fmt@strip (%s \"a b\")" % f, "(%s \"a\") + (%s \"b\") + \"c\"" % (f, rng.choice(fs)), "println (%s \"x\")" % f, "print (%s \"x\") (%s \"y\") 3" % (f, rng.choice(fs)), "len (%s \"ab\")" % f, "echo (%s \"x\")" % f]
    for f, g in itertools.product(fs, repeat=2):
        out += ["%s (%s \"n\")" % (f, g), "fmt@strip (%s ((%s \"n\") + \"m\"))" % (f, g)]
    for t, u in itertools.product(TEXTS + VALUES, repeat=2):
        out.append("fmt@href %s %s" % (t, u))
    for t in TEXTS + VALUES:
        out += ["fmt@strip %s" % t, "fmt@strip (fmt@strip %s)" % t, "console@title %s" % t, "fmt@href %s" % t, "(fmt@href %s) \"l\"" % t]
    for n in NUMS + ODD:
        out += ["fmt@wrap \"one two three\" %s" % n, "fmt@wrap [1, 2] %s" % n]
    out += ["fmt@strip", "fmt@strip 1 2", "fmt@href", "fmt@href 1 2 3", "fmt@wrap", "fmt@wrap \"a\"", "fmt@wrap 1 2 3", "console@title", "console@title 1 2"]
    return out


def control(ctx):
    out = list(PLAIN) + [p + " 9" for p in PLAIN] + ["console@clear", "console@clear 1 2"]
    for d in ("up", "down", "left", "right"):
        out += ["console@cursor@move-%s %s" % (d, n) for n in NUMS + ODD] + ["console@cursor@move-%s" % d, "console@cursor@move-%s 1 2" % d]
    out += ["console@cursor@move-to %s %s" % p for p in itertools.product(NUMS + ODD, repeat=2)] + ["console@cursor@move-to", "console@cursor@move-to 1", "console@cursor@move-to 1 2 3", "(console@cursor@move-to 1) 2"]
    out += ["console@write %s %s %s" % (x, y, t) for x, y in itertools.product(NUMS + ODD, repeat=2) for t in ctx.rng.sample(TEXTS + VALUES, 3)]
    out += ["console@write 3 4 %s" % t for t in TEXTS + VALUES + ['"a\\n\\nb\\n"', '"a\\r\\nb"', '"one\\ntwo\\nthree"', '"\\n\\nx"', "(widget@create \"t\" \"text\" 9 4)", "(fmt@red \"r\")"]]
    out += ["console@write", "console@write 1", "console@write 1 2", "console@write 1 2 3 4", "(console@write 1 2) \"t\"", "console@write { print 1; 5 } { print 2; 6 } { print 3; \"t\" }"]
    return out


def sessions(ctx, n):
    rng, out = ctx.rng, []
    fs = ["fmt@%s" % s for s in STYLES + COLOURS] + ["fmt@dark@%s" % c for c in COLOURS] + ["fmt@strip"]

    def e(d):
        r = rng.random()
        if d == 0 or r < 0.25:
            return rng.choice(TEXTS + VALUES[:8] + ["s", "t"])
        if r < 0.8:
            return "(%s %s)" % (rng.choice(fs), e(d - 1))
        if r < 0.9:
            return "((str %s) + (str %s))" % (e(d - 1), e(d - 1))
        return "(fmt@href %s %s)" % (e(d - 1), e(d - 1))
    for _ in range(n):
        s = ["let s = \"s\"", "let t = [1]"]
        for _ in range(rng.randint(3, 8)):
            s.append(rng.choice(["let s = %s", "%s", "println %s", "console@write %d %d %%s" % (rng.randint(-2, 9), rng.randint(-2, 9)), "console@title %s", "fmt@strip %s", "[s, %s]", "log@warn %s", "(x -> println x) %s", rng.choice(PLAIN), "console@cursor@move-up (len (str %s))"]).replace("%s", e(rng.randint(1, 4))))
        out.append(s)
    return out


def check(ctx):
    ctx.model_check("DesignTerm", cfg="DesignTerm" if not ctx.thorough else "DesignTerm_deep", what="what stands on the terminal", at_least=300)
    for name, ps in (("styles", styles(ctx)), ("terminal control", control(ctx))):
        prog.judge(ctx, [prog.session(r, show=True, msg=True, each=True) for r in prog.packed(ps, 40)], name, max_skip=0.1)
    prog.judge(ctx, [prog.session(r, show=True, msg=True) for r in sessions(ctx, ctx.n(700, 20000))], "random sessions", max_skip=0.15)
