TECHNIQUE = "TLA+ lexical specification; TLC judges recorded tokenizations"
LEVEL_NOTE = ("Every recorded tokenization (all texts up to length 3 over an 18-character alphabet, all escapes up to "
              "3 characters, all pairs of 80 words, and random texts) equals the one the TLA+ lexical rules give, "
              "and TLC checks losslessness of the specification on each. Beyond those texts it is sampling.")

import itertools

from .. import gen

WORDS = ["to", "let", "in", "if", "for", "then", "else", "None", "True", "False", "x", "foo", "n1", "a-b",
         "==", "!=", ">=", "<=", "&&", "||", "//", "<<", ">>", ">>>", "<", ">", "+", "-", "*", "%", "|", "@", "!",
         "(", ")", "[", "]", "{", "}", "'", ",", ";", "=", "->", "~>", "0", "1", "12", "-3", "0.5", "1.", "-0.25",
         "007", "1.2.3", "-", ".", "5.", "~", "/", "\\", "?", "&", "$", "^", ":", "_", "`", "\x7f", "\x00", "\x0b",
         "#c", "# a \"b", "\n", "\r", "\r\n", "\t", " ", "  ", "\x0c", "\"", "\"a\"", "\"a", "\"\\n\"", "\"\\q\"",
         "\"\\", "\\", "\"\\u{41}\"", "\"\\u{}\"", "\"\\u{d800}\"", "\"\\u{123456}\"", "\"\\u{10ffff}\"", "\"\\u{4",
         "\"\\u\"", "\"\\é\"", "é", "中", "\"é\"", "#é", "x中", "\"\\é", "\"\\€x\"", "\\é"]
SMALL = ["t", "o", "=", ">", "<", "-", "~", "!", "@", "1", "0", ".", "\"", "\\", " ", "#", "\n", "'"]
ESC = ["\"", "\\", "u", "{", "4", "d", "8", "0", "F", "}", "n", "é", "x"]


def texts(ctx):
    rng = ctx.rng
    out = [""]
    for k in range(1, 4):
        out += ["".join(t) for t in itertools.product(SMALL, repeat=k)]
    # Escapes: a quote, a backslash, and everything short after them.
    for k in range(0, 4):
        out += ["\"\\" + "".join(t) for t in itertools.product(ESC, repeat=k)]
    # Pairs of words, with and without something between them.
    out += [a + b for a in WORDS for b in WORDS]
    for _ in range(ctx.n(6000, 60000)):
        n = rng.randint(2, 9)
        out.append("".join(rng.choice(WORDS) if rng.random() < 0.85 else rng.choice(SMALL + list(gen.WIDE))
                           for _ in range(n)))
    for _ in range(ctx.n(3000, 30000)):
        out.append("\"" + "".join(rng.choice(["\\"] + ESC + ESC + ["\\u{", "\\u{41}", "\"", "中"])
                                  for _ in range(rng.randint(1, 9))))
    if ctx.thorough:
        out += ["".join(t) for t in itertools.product(SMALL, repeat=4)]
        out += [a + " " + b for a in WORDS for b in WORDS]
        out += [rng.choice(WORDS) + a + b for a in WORDS for b in WORDS for _ in range(3)]
    return list(dict.fromkeys(out))


def check(ctx):
    ts = texts(ctx)
    answers = ctx.ask([{"op": "lex", "text": t} for t in ts])
    cases = [{"text": t, **a} for t, a in zip(ts, answers)]
    ctx.judge("TraceLex", cases, "tokenization")
