import itertools
import re

from ..grammar import ALL, Gen

TECHNIQUE = "TLA+ grammar specification; TLC parses every recorded text and compares trees"
LEVEL_NOTE = ("TLC evaluates a TLA+ parsing-expression grammar of Dune on each text and compares verdict and tree with "
              "the implementation's. All token triples over 27 representative tokens are covered, the rest (grammar-directed "
              "and mutated programs, nesting up to 4) is sampling. Floats are compared when they are multiples of 1/1024.")

SMALL = ["a", "b", "1", "\"s\"", "+", "*", "==", "&&", "@", "!", "|", "<<", ">>", "to", "(", ")", "[", "]", "{", "}",
         "'", ",", ";", "=", "->", "if", "let"]


def texts(ctx, n):
    rng = ctx.rng
    g = Gen(rng)
    out = [""]
    for k in range(1, 4):
        out += [" ".join(t) for t in itertools.product(SMALL, repeat=k)]
    for _ in range(n):
        toks = g.script(rng.randint(1, 3), rng.randint(0, 2))
        if len(toks) > 60:
            continue
        if rng.random() < 0.35:
            toks = g.mutate(toks)
        out.append(g.join(toks, rng.choice(["tight", "spaced", "wild", "wild", "glued"])))
    for _ in range(n // 3):
        toks = [rng.choice(ALL) for _ in range(rng.randint(3, 9))]
        out.append(g.join(toks, rng.choice(["spaced", "wild"])))
    for _ in range(n // 3):
        toks = [rng.choice(SMALL) for _ in range(rng.randint(4, 6))]
        out.append(" ".join(toks))
    if ctx.thorough:
        core = ["a", "1", "+", "==", "@", "!", "|", "(", ")", "{", "}", "'", ",", ";", "=", "->", "if", "let", "for", "in"]
        out += [" ".join(t) for t in itertools.product(core, repeat=4)]
    return [t for t in dict.fromkeys(out)]


LONG_FLOAT = re.compile(r"[0-9.]{16,}")


def record(ctx, ts, mode):
    # Decimal fractions of more than 15 digits are outside the model.
    ts = [t for t in ts if not any("." in m for m in LONG_FLOAT.findall(t))]
    answers = ctx.ask([{"op": "parse", "text": t} for t in ts])
    return [{"text": t, "mode": mode, **a} for t, a in zip(ts, answers)]


def check(ctx):
    cases = record(ctx, texts(ctx, ctx.n(9000, 90000)), "tree")
    ok = sum(1 for c in cases if c.get("r") == "ok")
    ctx.cov["accepted_programs"] = ok
    ctx.judge("TraceParse", cases, "parsing")
