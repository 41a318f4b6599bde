import itertools

from .. import prog

TECHNIQUE = "TLA+ specification of the text library; TLC proves its laws and replays recorded calls on all short texts"
LEVEL_NOTE = ("Laws (split and join on one separator, caesar there and back, trim, lines, chars, split-at, case) are checked by TLC on the specification for all "
              "texts up to length 4 over an alphabet of ASCII, separators, white space and wide characters. Every string function is then called by dune "
              "on all texts up to length 2, with all pairs of short texts and all offsets, with wrong types and counts, and on long random Unicode texts, and "
              "the values and messages are compared with the specification.")

ALPHA = ["a", "B", "é", "中", "😀", " ", "\n", "ß", "1", "-"]
MORE = ALPHA + ["z", "Z", "n", "²", "٣", "\t", "\r", "　", "𐐀", "𐐨", "Ω", "ω", "Ж", "×", "_", "'", '"', "\\", "{", ",", "\x0b", "\x0c", "√", "…", "－", "b", "ä", "Ä", "€"]
UNARY = ["string@" + f for f in "to-string len get-width is-whitespace? is-alpha? is-alphanumeric? is-numeric? to-lower to-upper to-title is-lower is-upper is-title rev lines chars words paragraphs trim trim-start trim-end caesar".split()] + ["len", "str", "lines", "int", "-", "!", "fn@id", "log@info"]
BINARY = ["string@" + f for f in "split starts-with? ends-with? contains? split-at join caesar".split()] + ["+", "==", "<", "*", "@", "insert"]
WRONG = ["1", "2.5", "None", "True", "[\"a\", \"é\"]", "[1, [2]]", "{a=\"é\"}", "(x -> x)", "'s", "''s", "'(1 + 2)", "len", "[]", "-1", '"é"']


def lit(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'


def texts(n, alpha=ALPHA):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]


def unary(ctx):
    out = []
    for t in texts(2, MORE) + (texts(3) if ctx.thorough else []):
        s = lit(t)
        out.append("[%s]" % ", ".join("(%s %s)" % (f, s) for f in UNARY[:-5] if f not in ("string@chars",)))
        out.append("[(string@chars %s), (- %s), (lines %s), (string@join (string@chars %s) \"\"), (string@len (string@rev %s)), (string@trim (string@trim-end %s))]" % (s, s, s, s, s, s))
    for t in texts(2):
        out += ["%s %s" % (f, lit(t)) for f in UNARY] + ["for c in (string@chars %s) { c + c }" % lit(t)]
    return out


def pairs(ctx):
    out = []
    short, sep = texts(2), texts(1) + ["aa", "\n\n", "a中", "中中", "ßé", " \n", "--"]
    for a in short:
        for b in sep:
            x, y = lit(a), lit(b)
            out.append("[(string@split %s %s), (string@join (string@split %s %s) %s), (string@starts-with? %s %s), (string@ends-with? %s %s), (string@contains? %s %s), %s + %s, %s == %s, %s < %s, %s >= %s]"
                       % (y, x, y, x, y, x, y, x, y, x, y, x, y, x, y, x, y, x, y))
            for c in ("", "-", "中a", "aa"):
                out.append("string@replace %s %s %s" % (x, y, lit(c)))
    reps = [t for t in texts(4, ["a", "b"])] + [t for t in texts(3, ["a", "é", "\n"])] + ["\n\n\n\n", "a\n\n\nb", "\n\na\n\n", "a\r\nb\r\n", "a\r\r\nb", "中中中中", "a--b--", "----", "aé aé aé"]
    for a in reps:
        for b in ("a", "aa", "ab", "", "é", "\n", "中中", "--", "\n\n"):
            x, y = lit(a), lit(b)
            out += ["string@replace %s %s \"<>\"" % (x, y), "string@split %s %s" % (y, x), "[(string@starts-with? %s %s), (string@ends-with? %s %s), (string@contains? %s %s)]" % (x, y, x, y, x, y)]
        out.append("[(string@lines %s), (string@paragraphs %s), (string@words %s), (lines %s), (string@get-width %s)]" % ((lit(a),) * 5))
    return out


def offsets(ctx):
    out = []
    for t in texts(2) + ["aé中😀", "\n中\n", "abc", "éé"]:
        s = lit(t)
        for i in list(range(-2, len(t.encode()) + 3)):
            out += ["string@split-at %s (%d)" % (s, i), "%s@(%d)" % (s, i), "insert %s (%d) \"中\"" % (s, i), "%s * (%d)" % (s, i)]
        out += ["string@split-at %s %s" % (s, i) for i in ("9223372036854775807", "(-9223372036854775807 - 1)", "1.0", "None")]
    for t in ["", "a", "zZ", "é", "Hello, World 1 中"]:
        for k in list(range(-60, 61, 1 if ctx.thorough else 7)) + [-27, -26, -25, -1, 0, 1, 13, 25, 26, 27, 127, 128, 255, 256, 230, 231, 9223372036854775807, -9223372036854775807]:
            out.append("[(string@caesar %s (%d)), (string@caesar (string@caesar %s (%d)) (%d))]" % (lit(t), k, lit(t), k, -k))
    return out


def wrong(ctx):
    out = []
    for f in UNARY + BINARY + ["string@replace"]:
        g = f if f[0].isalpha() else "(%s)" % f
        out += [g] + ["%s %s" % (g, a) for a in WRONG] + ["%s %s %s" % (g, a, b) for a in WRONG for b in WRONG]
        out += ["%s %s %s %s" % (g, a, b, c) for a, b, c in ctx.rng.sample(list(itertools.product(WRONG, repeat=3)), ctx.n(40, 1000))]
        out += ["%s { print 1; \"é\" } { print 2; \"é\" } { print 3; \"x\" }" % g, "%s (zz 1) { print 2; 1 }" % g, "%s 1 2 3 4" % g]
    out += ["(string@split %s) %s" % (lit(a), lit(b)) for a in ("", "a", "中") for b in ("a中a", "", "中")] + ["fn@map (string@split \",\") [\"a,b\", \"é,\", \",\"]", "fn@map string@trim [\" a\", \"b \"]",
                                                                                           "string@join [1, 2.5, \"a\", 's, None, [1], {a=\"é\"}, True] \"中\"", "string@join [] 1", "string@join [\"a\", \"b\"] 1", "string@join [\"a\", \"b\"] None", "string@join [\"a\", \"b\"] [1]"]
    # repetition by a huge count exhausts the memory (DESIGN.md)
    return [p for p in out if not (p.startswith("(*)") and "9223" in p)]


def randoms(ctx, n):
    rng, out = ctx.rng, []

    def text(hi=30):
        k = rng.randrange(hi)
        a = MORE if rng.random() < 0.6 else rng.sample(MORE, 3)
        return "".join(rng.choice(a) for _ in range(k))

    def expr(d=3):
        r = rng.random()
        if d == 0 or r < 0.2:
            return lit(text())
        e = expr(d - 1)
        return rng.choice([
            "(string@to-upper %s)" % e, "(string@to-lower %s)" % e, "(string@to-title %s)" % e, "(string@trim %s)" % e, "(string@trim-start %s)" % e, "(string@trim-end %s)" % e,
            "(string@rev %s)" % e, "(string@caesar %s (%d))" % (e, rng.randint(-40, 40)), "(string@replace %s %s %s)" % (e, lit(text(3)), lit(text(4))), "(%s + %s)" % (e, expr(d - 1)),
            "(string@join (string@split %s %s) %s)" % (lit(text(3)), e, lit(text(3))), "(string@join (string@words %s) \" \")" % e, "(string@join (string@lines %s) \"|\")" % e,
            "(string@join (list@rev (string@chars %s)) \"\")" % e, "(%s * %d)" % (e, rng.randrange(4)), "(string@join (fn@map string@to-title (string@words %s)) \"_\")" % e])
    for _ in range(n):
        e = expr()
        out.append(rng.choice(["%s", "%s", "string@lines %s", "string@words %s", "string@paragraphs %s", "string@chars %s", "[string@len %s, 1]", "string@get-width %s", "len %s", "str %s",
                               "string@split %s %s" % (lit(text(3)), "%s"), "string@is-title %s", "string@split-at %%s %d" % rng.randrange(40), "string@contains? %s %s" % ("%s", lit(text(3))), "%%s@(%d)" % rng.randrange(30),
                               "%s < %s" % ("%s", expr(1)), "(t -> [string@trim t, string@rev t, string@replace t \"a\" \"bb\", t]) %s"]).replace("%s", e))
    return out


def check(ctx):
    ctx.model_check("DesignLib", cfg="DesignLib_text", what="laws of texts", at_least=500)
    for name, ps in (("short texts", unary(ctx)), ("pairs of texts", pairs(ctx)), ("offsets and shifts", offsets(ctx)), ("wrong arguments", wrong(ctx)), ("random texts", randoms(ctx, ctx.n(3000, 80000)))):
        prog.judge(ctx, [prog.session(r, show=name != "short texts", msg=True, each=True) for r in prog.packed(ps, 60)], name, max_skip=0.1)
