import itertools

from .. import prog

TECHNIQUE = "TLA+ exact 64-bit arithmetic and order; TLC proves its laws and replays recorded programs"
LEVEL_NOTE = ("The arithmetic of the specification is checked against TLA+ integers and the laws of arithmetic and order on all pairs of 60 values; "
              "then all pairs of 56 values under all 11 binary operators, unary minus and not, chains and n-ary calls, random integers near the "
              "limits and random texts and lists are run by dune and by the specification. Floats: exact where they are multiples of 1/1024 below "
              "10^6, otherwise only their type is compared.")

VALS = ["0", "1", "-1", "2", "-2", "3", "-7", "10", "63", "64", "-65", "10000", "-10001", "999999999", "1000000000", "3037000499", "3037000500", "-3037000500", "4294967296",
        "9007199254740993", "4611686018427387904", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "(-9223372036854775807 - 1)",
        "0.0", "0.5", "-0.5", "1.0", "2.5", "-1.25", "1000.125", "(0.0 * -1)", "True", "False", "None", '""', '"a"', '"ab"', '"b"', '"A"', '"é"', '"😀"', '"1"',
        "[]", "[1]", "[1, 2]", "[2]", '["a"]', "[[1], 2]", "{}", "{a=1}", "{a=1, b=2}", "{b=1}", "'a", "'b", "'(1 + 2)", "(n -> n)", "len"]
LARGE = {"10000", "999999999", "1000000000", "3037000499", "3037000500", "4294967296", "9007199254740993"}
OPS = ["+", "-", "*", "//", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]


def pairs(ctx):
    out = []
    for a, b in itertools.product(VALS, repeat=2):
        for op in OPS:
            # Unmeasurable amounts of text are left out: nobody says how much memory there is.
            if op == "*" and ({a, b} & LARGE) and (a[0] in '"[' or b[0] in '"['):
                continue
            out.append("%s %s %s" % (a, op, b))
    for a in VALS:
        out += ["- %s" % a, "-(%s)" % a, "! %s" % a, "(+) %s" % a, "+ %s 1" % a, "- (- %s)" % a, "* %s" % a, "// %s" % a, "%% %s" % a, "len %s" % a, "(< %s)" % a, "== %s" % a,
                "(x -> [x == x, x != x, x < x, x <= x, x >= x, x > x]) %s" % a, "math@abs %s" % a, "math@fact %s" % a, "math@isodd %s" % a, "math@iseven %s" % a]
        for b in VALS:
            out.append("%s to %s" % (a, b) if not (a in VALS[:32] and b in VALS[:32] and (len(a) > 4 or len(b) > 4)) else "%s@%s" % (a, b))
    return out


def number(rng):
    r = rng.random()
    if r < 0.25:
        n = rng.randint(-20, 20)
    elif r < 0.45:
        n = rng.choice([1, -1]) * (2 ** rng.randint(0, 63) + rng.randint(-2, 2))
    elif r < 0.65:
        n = rng.choice([2 ** 63 - 1, -2 ** 63]) + rng.choice([1, -1]) * rng.randint(0, 9)
    elif r < 0.85:
        n = rng.choice([1, -1]) * int(rng.getrandbits(63) >> rng.randint(0, 62))
    else:
        n = rng.randint(-10 ** 5, 10 ** 5)
    n = max(-2 ** 63, min(2 ** 63 - 1, n))
    return "(-9223372036854775807 - 1)" if n == -2 ** 63 else str(n) if n >= 0 else "(%d)" % n


def rand_value(rng, d=2):
    r = rng.random()
    if r < 0.5:
        return number(rng)
    if r < 0.6:
        return "%s%d.%s" % (rng.choice(["", "-"]), rng.randrange(200), rng.choice(["0", "5", "25", "125", "0625", "75"]))
    if r < 0.75:
        return '"%s"' % "".join(rng.choice("abAé中😀 1") for _ in range(rng.randrange(4)))
    if r < 0.92 and d:
        return "[%s]" % ", ".join(rand_value(rng, d - 1) for _ in range(rng.randrange(4)))
    if d:
        return "{%s}" % ", ".join("%s=%s" % (k, rand_value(rng, d - 1)) for k in rng.sample("abc", rng.randrange(3)))
    return rng.choice(["True", "False", "None"])


def randoms(ctx, n):
    rng, out = ctx.rng, []
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            out.append("%s %s %s" % (number(rng), rng.choice(OPS[:5]), number(rng)))
        elif r < 0.55:
            out.append("%s %s %s" % (number(rng), rng.choice(OPS[5:11]), number(rng)))
        elif r < 0.8:
            a = rand_value(rng)
            b = a if rng.random() < 0.25 else rand_value(rng)
            out.append("(a -> b -> [a == b, a != b, a < b, a <= b, a > b, a >= b, b < a, b == a]) %s %s" % (a, b))
        elif r < 0.9:
            out.append(" ".join([number(rng)] + ["%s %s" % (rng.choice(OPS[:5]), number(rng)) for _ in range(rng.randint(2, 4))]))
        elif r < 0.95:
            out.append("%s %s" % (rng.choice(["math@abs", "math@isodd", "math@iseven", "-", "math@floor", "math@round", "math@trunc", "math@ceil"]), rng.choice([number(rng), rand_value(rng, 0)])))
        else:
            out.append("%s %s %s" % (rng.choice(["math@lsh", "math@rsh", "math@l-rsh", "math@a-rsh", "math@pow"]), number(rng), rng.choice([number(rng), str(rng.randint(-1, 66))])))
        if r > 0.97:
            out.append("%s [%s]" % (rng.choice(["math@sum", "math@product", "math@max", "math@min"]), ", ".join(number(rng) for _ in range(rng.randint(1, 4)))))
    return out


def check(ctx):
    ctx.model_check("DesignInt", what="laws of numbers and order", at_least=3000)
    ps = pairs(ctx)
    prog.judge(ctx, [prog.session(r, show=True, each=True) for r in prog.packed(ps, 100)], "all pairs", max_skip=0.05)
    prog.judge(ctx, [prog.session(r, show=True, each=True) for r in prog.packed(randoms(ctx, ctx.n(6000, 200000)), 40)], "random numbers and values", max_skip=0.05)
