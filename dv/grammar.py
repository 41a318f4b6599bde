"""Random token sequences, grammatical ones and broken ones."""

SYMS = ["a", "b", "foo", "x1", "n-m", "./p", "~", "a.b", "--long", "PATH:x", "$v", "w?", "let2", "to1", "->x"]
STRS = ['"s"', '""', '"a b"', '"q\\"t"', '"\\n\\t"', '"\\u{e9}"', '"é中"', '"l1\nl2"', '"it\'s"', '"#no"', '"\\\\"']
NUMS = ["0", "1", "7", "42", "-5", "123456789", "2147483648", "-999999999", "1000000000", "9223372036854775807",
        "-9223372036854775808", "0.5", "2.25", "-1.5", "10.0", "3.125"]
OPS = ["+", "-", "*", "//", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "to", "@", "!", "|", "<<", ">>", ">>>"]
PUNCT = ["(", ")", "[", "]", "{", "}", "'", ",", ";", "=", "->", "~>"]
KWS = ["let", "for", "in", "if", "else", "None", "then", "True", "False"]
ALL = SYMS[:6] + STRS[:4] + NUMS[:4] + ["0.5", "9223372036854775808", "-9223372036854775809"] + OPS + PUNCT + KWS


class Gen:
    def __init__(self, rng):
        self.r = rng

    def one(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.5:
            return [r.choice(r.choice([SYMS, SYMS, STRS, NUMS, ["True", "False", "None"]]))]
        if k < 0.63:
            return ["("] + self.expr(d - 1) + [")"]
        if k < 0.70:
            return ["'"] + self.two(d - 1)
        if k < 0.76:
            out = ["{"]
            for i in range(r.randint(0, 3)):
                out += ([","] if i else []) + [r.choice(SYMS[:5] + ["+", "*"]), "="] + self.expr(d - 1)
            return out + ["}"]
        if k < 0.83:
            return self.block(d - 1)
        if k < 0.97:
            out = ["["]
            for i in range(r.randint(0, 3)):
                out += ([","] if i else []) + self.expr(d - 1)
            return out + ["]"]
        return ["(", ")"]

    def block(self, d):
        return ["{"] + self.script(d, self.r.randint(0, 2)) + ["}"]

    def two(self, d):
        out = self.one(d)
        while self.r.random() < 0.12:
            out += ["@"] + (self.one(d - 1) if self.r.random() < 0.9 else [self.r.choice(["+", "*", "=="])])
        return out

    def level(self, d, operand, ops, p):
        out = operand(d)
        while self.r.random() < p:
            out += [self.r.choice(ops)] + operand(d - 1)
        return out

    def three(self, d):
        return self.level(d, self.two, ["*", "//", "%"], 0.12)

    def four(self, d):
        return self.level(d, self.three, ["+", "-"], 0.15)

    def five(self, d):
        if self.r.random() < 0.06:
            return ["!"] + self.four(d)
        if self.r.random() < 0.06:
            return self.four(d) + ["to"] + self.four(d - 1)
        return self.level(d, self.four, ["==", "!=", ">=", "<=", ">", "<"], 0.1)

    def six(self, d):
        return self.level(d, self.five, ["&&", "||"], 0.1)

    def seven(self, d):
        r = self.r
        k = r.random()
        if d > 0 and k < 0.06:
            return ["for", r.choice(SYMS[:4]), "in"] + (self.four(d - 1) + ["to"] + self.four(d - 1) if r.random() < 0.5
                                                        else self.four(d - 1)) + self.block(d - 1)
        if d > 0 and k < 0.14:
            out = ["if"] + self.six(d - 1) + self.four(d - 1)
            if r.random() < 0.6:
                out += ["else"] + (self.four(d - 1) if r.random() < 0.7 else
                                   ["if"] + self.six(d - 1) + self.four(d - 1))
            return out
        if d > 0 and k < 0.24:
            return ["let", r.choice(SYMS[:4] + ["+", "=="]), "="] + self.expr(d - 1)
        if d > 0 and k < 0.34:
            return [r.choice(SYMS[:4]), r.choice(["->", "~>"])] + self.expr(d - 1)
        if k < 0.55:
            out = self.two(d) if r.random() < 0.85 else [r.choice(["+", "-", "*", "!", "<", "to", "<<", "&&"])]
            for _ in range(r.randint(1, 3)):
                out += self.five(d - 1)
            return out
        return self.six(d)

    def expr(self, d):
        out = self.seven(d)
        while self.r.random() < 0.06:
            out += [self.r.choice(["|", "|", ">>", ">>>", "<<"])] + self.seven(d - 1)
        return out

    def script(self, d, n):
        out = []
        for _ in range(n):
            e = self.expr(d)
            out += e + ([] if e[0] in ("for", "if") and self.r.random() < 0.5 else [";"])
        if self.r.random() < 0.7 or n == 0:
            e = self.expr(d)
            out += e
            if self.r.random() < 0.2:
                out += [";"]
        return out

    def mutate(self, toks):
        toks = list(toks)
        for _ in range(self.r.randint(1, 2)):
            k = self.r.random()
            i = self.r.randrange(len(toks) + 1)
            if k < 0.35 and toks:
                del toks[min(i, len(toks) - 1)]
            elif k < 0.7:
                toks.insert(i, self.r.choice(ALL))
            elif k < 0.85 and toks:
                toks[min(i, len(toks) - 1)] = self.r.choice(ALL)
            elif len(toks) > 1:
                j = self.r.randrange(len(toks) - 1)
                toks[j], toks[j + 1] = toks[j + 1], toks[j]
        return toks

    WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-.~\\/?&<>$%#^:=!*|@")

    def join(self, toks, style):
        """The text of a token sequence: tight, spaced, or wildly spaced."""
        r = self.r
        out = ""
        for t in toks:
            if out:
                need = out[-1] in self.WORD and t[0] in self.WORD and "@" not in (out[-1], t[0])
                need = need and out[-1] not in "=" or (out[-1] == "=" and t[0] in "=<>")
                if style == "glued":
                    need = need and r.random() < 0.9
                if need or style == "spaced" or (style == "wild" and r.random() < 0.7):
                    out += " " if style != "wild" else r.choice(
                        [" ", "  ", "\n", "\t", "\r\n", " # note\n", "\n\n  ", " #\"(\n", "\x0c"])
            out += t
        if style == "wild":
            out = r.choice(["", " ", "\n", "# c\n"]) + out + r.choice(["", "\n", " ", " # end"])
        return out
