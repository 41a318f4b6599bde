from . import c01, c02
from ..grammar import Gen

TECHNIQUE = "TLA+ specification of error reports; TLC renders and compares each recorded report"
LEVEL_NOTE = ("For each rejected text TLC computes the offending region from the TLA+ grammar and the complete report "
              "(line number, quoted line, highlighted region, message) and compares it with the implementation's "
              "rendering, including reports inside multi-line and very long lines. Sampling beyond the enumerated texts.")


def texts(ctx):
    rng = ctx.rng
    g = Gen(rng)
    out = [t for t in c02.texts(ctx, ctx.n(2500, 30000)) if rng.random() < 0.5]
    n = ctx.n(7000, 60000)
    bad = ["`", "\"\\q\"", "\"\\u{d800}\"", "1.", "é", "&&&&", "\"\\", "\x7f", "中", "9223372036854775808", "let", "for",
           "(", ")", "]", "}", "if", "x ->", "1to", "0 to", "\"\\q\\w\"", "\x0b", "　", "{", "[1 2", "let \"a\nb\"",
           "\"a\nb\\q\nc\"", "for \"long\nstring" + "z" * 90 + "\"", "\"\\\n\"", "let \"" + "y" * 80 + "\n\n\"",
           "-9223372036854775809", "\"\\\r\n\"", "1.x", "0.5.5"]
    good = ["a b", "let x = 1;", "f (1 + 2);", "# comment", "\"s\"", "{ x }", "x -> y;", "é # é", "", " ", "if a b;",
            "foo \"" + "w" * 70 + "\";", "  indented;", "\t;"]
    for _ in range(n):
        lines = [rng.choice(good) for _ in range(rng.randint(0, 4))]
        k = rng.randint(1, 2)
        for _ in range(k):
            i = rng.randrange(len(lines) + 1)
            b = rng.choice(bad) if rng.random() < 0.7 else g.join(g.mutate(g.expr(1)), "spaced")
            lines.insert(i, rng.choice(["", "", "ok ", "q" * rng.randint(1, 90) + " "]) + b + rng.choice(["", "", " tail", " " + "t" * 80]))
        out.append(rng.choice(["\n", "\n", "\r\n", "\n\n"]).join(lines) + rng.choice(["", "\n"]))
    out += [t for t in c01.texts(ctx) if rng.random() < 0.12]
    return list(dict.fromkeys(out))


def check(ctx):
    cases = c02.record(ctx, texts(ctx), "report")
    ctx.cov["rejected_texts"] = sum(1 for c in cases if c.get("r") == "err")
    ctx.judge("TraceParse", cases, "error reports")
