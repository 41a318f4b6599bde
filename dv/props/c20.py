import itertools

from .. import prog

TECHNIQUE = "TLA+ specification of widgets (what every frame has to satisfy) and of joining; TLC replays recorded calls"
LEVEL_NOTE = ("dune creates widgets for all combinations of titles, texts (empty, words longer than the frame, blank lines, other scripts, more text than fits) and "
              "sizes around every limit, and joins widgets and arbitrary texts of equal and unequal sizes, nested; every frame is checked to be the exact rectangle with "
              "the title in its border and the text wrapped inside in order, whole words kept, and every join character by character.")

TITLES = ["", "t", "ab", "abc", "title", "a title", "é", "中文", "ÉÉ î", "┌─┐", "x" * 8, "x" * 9, "x" * 10, " lead", "trail ", "a\\nb", "\\n", "😀", "-", "\\t", "\\u{1b}[1m"]
TEXTS = ["", "a", "ab cd", "one two three", "hello world this is a longer text which has to be wrapped", "x" * 5, "x" * 30, "a " * 20, "one\\ntwo", "one\\n\\ntwo\\n", "\\n", "\\n\\n\\n", "a\\n\\n\\n\\n\\n\\nb", "   lead", "trail   ", "a    b", "well-known hyphen-ated words-", "é à ü î", "中文あ 文中", "😀 😀", "a\\tb", "one\\rtwo", "word" * 3 + " " + "long" * 9, "a b c d e f g h i j", "end.", "x, y; z!", "1 2\\n3 4\\n5 6\\n7 8", "a\\nb\\nc\\nd\\ne\\nf\\ng\\nh", "(x) [y] {z}", "\\\\ back", "'q'"]
WIDTHS = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 21, 40, 80]
HEIGHTS = [2, 3, 4, 5, 6, 8, 12]
ODD = ["-1", "0", "4", "1", "None", "\"5\"", "5.0", "[]", "(-9223372036854775807 - 1)", "True", "'x", "(zz 1)", "300", "1000"]
VALUES = ["5", "None", "[1, \"a b\"]", "{a=1}", "'(1 + 2)", "True", "2.5", "(x -> x)"]
LINES = ["a", "b\\n", "a\\nb", "ab\\ncd\\n", "é\\n中", "", "\\n", " a \\n b ", "a\\r\\nb", "a\\nb\\nc", "abc", "  ", "ab\\n", "\\nab", "x\\n\\ny", "\\tt", "one\\ntwo\\nsix\\n"]


def q(t):
    return '"%s"' % t


def sessions(ctx):
    rng, ps = ctx.rng, []
    for t, x in itertools.product(TITLES, TEXTS):
        for w, h in rng.sample(list(itertools.product(WIDTHS, HEIGHTS)), ctx.n(1, 40)):
            ps.append("widget@create %s %s %d %d" % (q(t), q(x), w, h))
    for w, h in itertools.product(WIDTHS + list(range(14, 34)), HEIGHTS):
        ps.append("widget@create %s %s %d %d" % (q(rng.choice(["", "t", "ab", "title"])), q(rng.choice(TEXTS)), w, h))
        for k in (w - 3, w - 2, w - 1):
            if 0 <= k < 50:
                ps.append("widget@create %s %s %d %d" % (q("t" * k), q(rng.choice(TEXTS)), w, h))
    for o in ODD:
        ps += ["widget@create \"t\" \"x\" %s 5" % o, "widget@create \"t\" \"x\" 9 %s" % o, "widget@create \"t\" \"x\" %s %s" % (o, rng.choice(ODD)), "widget@create { print 1; \"t\" } { print 2; \"x\" } %s { print 4; 5 }" % o]
    for v in VALUES:
        ps += ["widget@create %s \"x\" 12 4" % v, "widget@create \"t\" %s 12 4" % v, "widget@joinx %s \"a\"" % v, "widget@joinx \"a\" %s" % v, "widget@joiny %s \"a\"" % v, "widget@joiny \"a\" %s" % v]
    for a, b in itertools.product(LINES, repeat=2):
        ps += ["widget@joinx %s %s" % (q(a), q(b)), "widget@joiny %s %s" % (q(a), q(b))]
    for _ in range(ctx.n(300, 6000)):
        ps.append("widget@%s %s" % (rng.choice(["joinx", "joiny"]), " ".join(q(rng.choice(LINES)) for _ in range(rng.randint(3, 5)))))
    for j in ("joinx", "joiny"):
        ps += ["widget@%s" % j, "widget@%s \"a\"" % j, "widget@%s { print 1; \"a\\n\" } { print 2; \"b\\nc\" } { print 3; \"d\" }" % j, "widget@%s (zz 1) \"a\"" % j, "(widget@%s \"a\") \"b\"" % j]
    ps += ["widget@create", "widget@create \"t\"", "widget@create \"t\" \"x\" 9 5 1", "(widget@create \"t\" \"x\") 9 5", "widget@create (zz 1) \"x\" 9 5"]
    for _ in range(ctx.n(700, 20000)):
        words = [rng.choice(["a", "in", "the", "word", "longer", "x" * rng.randint(1, 16), "é", "中", "hy-phen", "end."]) for _ in range(rng.randint(0, 14))]
        text = "".join(x + rng.choice([" ", " ", " ", "  ", "\\n", "\\n\\n"]) for x in words)
        ps.append("widget@create %s %s %d %d" % (q(rng.choice(TITLES)), q(text), rng.randint(5, 30), rng.randint(3, 9)) if rng.random() < 0.75 else "fmt@wrap %s %d" % (q(text), rng.choice([1, 2, 5, 8, 13, 16, 30, 53, 70, 33000, 70000])))
    rng.shuffle(ps)
    return prog.packed(ps, 20)


def joins(ctx):
    """Widgets which are made, and then joined and joined again."""
    rng, out = ctx.rng, []

    def make(w, h):
        return "widget@create %s %s %d %d" % (q(rng.choice(["", "t", "ab", "é", "中"])), q(rng.choice(TEXTS)), w, h)
    for _ in range(ctx.n(56, 8000)):
        w, h = rng.choice([6, 9, 14]), rng.choice([3, 4, 6])
        off = rng.random() < 0.2
        s = ["let a = (%s)" % make(w, h), "let b = (%s)" % make(w, h), "let c = (%s)" % make(w + (off and rng.choice([0, 1])), h + (off and rng.choice([0, 1])))]
        s += ["let x = (widget@joinx a b)", "let y = (widget@joiny a b)", "let z = (widget@joinx %s)" % " ".join(rng.choice("abcxy") for _ in range(rng.randint(2, 4))), "let v = (widget@joiny %s)" % " ".join(rng.choice("abcxyz") for _ in range(rng.randint(2, 4))),
              "widget@joiny x x", "widget@joinx y y", "widget@joiny x %s" % rng.choice("xzv"), "widget@joinx y %s" % rng.choice("ayv"), "println z", "len (lines x)", "widget@joinx (widget@joiny a c) y"]
        out.append(s)
    return out


def check(ctx):
    for name, ss, each in (("frames and texts", sessions(ctx), True), ("joined widgets", joins(ctx), False)):
        prog.judge(ctx, [prog.session(s, show=True, msg=True, each=each) for s in ss], name, max_skip=0.15)
