from . import c01
from .. import gen

TECHNIQUE = "TLA+ specification of a line's colours; TLC reads recorded highlighted lines as a terminal does"
LEVEL_NOTE = ("TLC checks on the specification, for all lines typed up to a length, that the painted line shows the line and nothing else, that colours end with it, and that typing on leaves the colours of earlier words. The highlighter's answers for all short lines over 18 characters, all pairs of words, escapes, "
              "random lines and programs are then read by the specification as a terminal would: every character in its place and in the colour of its kind, malformed parts as errors, and the usual colour after the line. Blanks may have any colour. Beyond those lines it is sampling.")

MORE = ["echo", "exit", "clear", "cd", "rm", "rmdir", "cd1", "Exit", "echo ", "\x1b", "\x1b[31m", "\x1b[0m", "\x1b[m", "[0m", "m", "\"\x1b[95m\"", "#\x1b[1m", "\"\\q\\u{d800}\\\"", "1.", "-1.", "0.", "None", "True", "let x = ", "for i in 0 to 3 ", "x -> y", "x ~> y", "a | b >> c", "if a { b } else { c }", "\"unfinished", "{a = 1}", "'x", "x@y"]


def check(ctx):
    rng = ctx.rng
    ctx.model_check("DesignPaint", cfg=ctx.n("DesignPaint", "DesignPaint_deep"), what="a painted line shows the line, in colours which end with it", at_least=1000)
    ts = c01.texts(ctx)
    words = c01.WORDS + MORE
    ts += [a + b for a in MORE for b in words] + [b + a for a in MORE for b in words]
    for _ in range(ctx.n(6000, 100000)):
        ts.append("".join(rng.choice(words) + rng.choice(["", "", " "]) for _ in range(rng.randint(2, 12))))
    for _ in range(ctx.n(20, 300)):
        ts.append("".join(rng.choice(words + list(gen.WIDE)) + rng.choice(["", "", " "]) for _ in range(rng.randint(50, 150))))
    ts = list(dict.fromkeys(ts))
    cases = [{"text": t, **a} for t, a in zip(ts, ctx.ask([{"op": "hl", "text": t} for t in ts]))]
    ctx.judge("TracePaint", cases, "highlighted lines")
