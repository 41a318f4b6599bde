"""Generates sessions of Dune programs which mostly run without an error."""


INTS = ["0", "1", "2", "3", "7", "-1", "-5", "10", "100", "4611686018427387904", "9223372036854775807", "-9223372036854775808"]
FLTS = ["0.5", "1.0", "-2.25", "3.75", "0.0", "100.125"]
STRS = ['""', '"a"', '"ab"', '"b"', '"hello world"', '"é"', '"aé中"', '"x\\ny"', '" pad "', '"0"', '"😀z"', '"\\"q\\""', '"A b C"']
KEYS = ["a", "b", "c", "k"]
NAMES = ["x", "y", "z", "f", "g", "h", "m", "t"]


class ProgGen:
    def __init__(self, rng, effects=0.1, wild=0.06, names=NAMES, nested=3, macros=False):
        self.rng, self.effects, self.wild, self.names, self.nested = rng, effects, wild, names, nested
        self.types = {}
        self.macros = macros
        self.k = 0

    # -- helpers -----------------------------------------------------------
    def ch(self, *xs):
        return self.rng.choice(xs)

    def chance(self, p):
        return self.rng.random() < p

    def some(self, typ):
        return [n for n, t in self.types.items() if t == typ]

    def mark(self):
        self.k += 1
        return 'print "%d;"' % self.k

    def wrap(self, e):
        """The expression, perhaps with a visible effect before it."""
        if self.chance(self.effects):
            return "{ %s; %s }" % (self.mark(), e)
        return e

    def par(self, e):
        return e if e.isalnum() or (e[0] in '"[' and e[-1] in '"]') else "(%s)" % e

    # -- expressions -------------------------------------------------------
    def expr(self, typ=None, d=None):
        d = self.nested if d is None else d
        if typ is None or self.chance(self.wild):
            typ = self.ch("int", "int", "str", "list", "map", "bool", "flt", "fn", "none", "sym", "quo")
        vs = self.some(typ)
        if vs and self.chance(0.4):
            return self.wrap(self.rng.choice(vs))
        if d <= 0:
            return self.wrap(self.atom(typ))
        return self.wrap(getattr(self, "e_" + typ)(d - 1))

    def p(self, typ, d):
        return self.par(self.expr(typ, d))

    def atom(self, typ):
        return {"int": lambda: self.rng.choice(INTS[:9] if self.chance(0.85) else INTS), "flt": lambda: self.rng.choice(FLTS),
                "str": lambda: self.rng.choice(STRS), "bool": lambda: self.ch("True", "False"), "none": lambda: "None",
                "list": lambda: self.ch("[]", "[1, 2, 3]", '["a", "b"]', "[1]", "[[1, 2], [3]]", "[3, 1, 2]"),
                "map": lambda: self.ch("{a=1}", "{a=1, b=2}", '{k="v", a=[1]}', "{c={a=1}}"),
                "fn": lambda: self.ch("(n -> n)", "(n -> n + 1)", "(n -> [n, n])", "(n -> n * 2)"),
                "sym": lambda: self.ch("'undefined", "'x", "nothing"),
                "quo": lambda: self.ch("'x", "'(1 + 2)", "'{ 1; 2 }", "'(let x = 3)")}[typ]()

    def e_int(self, d):
        r = self.rng.randrange(13)
        if r < 4:
            return "%s %s %s" % (self.p("int", d), self.ch("+", "-", "*", "//", "%", "+"), self.p("int", d))
        if r == 4:
            return "len %s" % self.p(self.ch("list", "str", "map"), d)
        if r == 5:
            return "%s@%s" % (self.p("list", d), self.ch("0", "1", "2", "(0)", "5"))
        if r == 6:
            return "%s@%s" % (self.p("map", d), self.ch("a", "b", '"a"', "zz"))
        if r == 7:
            return self.cond("int", d)
        if r == 8:
            return self.call("int", d)
        if r == 9:
            return "fn@reduce (p -> q -> %s) 0 %s" % (self.ch("p + q", "q - p", "p + q * 2", "q"), self.p("list", d))
        if r == 10:
            return "math@%s %s" % (self.ch("abs", "isodd", "floor", "sum"), self.p("int", d))
        if r == 11:
            return self.block("int", d)
        return self.atom("int")

    def e_flt(self, d):
        return "%s %s %s" % (self.p(self.ch("flt", "int"), d), self.ch("+", "-", "*", "//"), self.p("flt", d))

    def e_str(self, d):
        r = self.rng.randrange(7)
        if r < 2:
            return "%s + %s" % (self.p("str", d), self.p("str", d))
        if r == 2:
            return "str %s" % self.p(self.ch("int", "bool", "list", "none", "map"), d)
        if r == 3:
            return "string@%s %s" % (self.ch("to-upper", "to-lower", "trim", "rev"), self.p("str", d))
        if r == 4:
            return "%s * %s" % (self.p("str", d), self.ch("0", "1", "2", "3"))
        if r == 5:
            return self.cond("str", d)
        return self.call("str", d)

    def e_bool(self, d):
        r = self.rng.randrange(7)
        if r < 3:
            t = self.ch("int", "int", "str", "list", "flt")
            return "%s %s %s" % (self.p(t, d), self.ch("==", "!=", "<", "<=", ">", ">="), self.p(t, d))
        if r < 5:
            return "%s %s %s" % (self.p("bool", d), self.ch("&&", "||"), self.p(self.ch("bool", "bool", "int", "none"), d))
        if r == 5:
            return "! %s" % self.p(self.ch("bool", "int", "str"), d)
        return self.ch("True", "False")

    def e_list(self, d):
        r = self.rng.randrange(10)
        if r < 3:
            return "[%s]" % ", ".join(self.expr(self.ch("int", "int", "str", "list"), d - 1) for _ in range(self.rng.randrange(4)))
        if r == 3:
            return "%s + %s" % (self.p("list", d), self.p("list", d))
        if r == 4:
            return "%s to %s" % (self.ch("0", "1", "-1", "5"), self.ch("3", "2", "5", "0"))
        if r == 5:
            return "for %s in %s %s" % (self.rng.choice(self.names), self.p("list", d), self.block("int", d))
        if r == 6:
            return "fn@%s %s %s" % (self.ch("map", "filter"), self.p("fn", d), self.p("list", d))
        if r == 7:
            return "list@%s %s" % (self.ch("rev", "tail"), self.p("list", d))
        if r == 8:
            return "list@%s %s %s" % (self.ch("take", "drop", "split-at", "chunk"), self.ch("0", "1", "2", "9"), self.p("list", d))
        return self.call("list", d)

    def e_map(self, d):
        r = self.rng.randrange(4)
        if r < 2:
            ks = self.rng.sample(KEYS, self.rng.randint(1, 3))
            return "{%s}" % ", ".join("%s=%s" % (k, self.expr(None, d - 1)) for k in ks)
        if r == 2:
            return "dict@insert %s %s %s" % (self.p("map", d), self.ch('"a"', '"n"'), self.p("int", d))
        return "dict@%s %s %s" % (self.ch("union", "intersect", "difference"), self.p("map", d), self.p("map", d))

    def e_none(self, d):
        r = self.rng.randrange(5)
        if r == 0:
            return "println %s" % self.p(None, d)
        if r == 1:
            return "let %s = %s" % self.let(d)
        if r == 2:
            return "{}"
        return "None"

    def e_sym(self, d):
        return self.atom("sym")

    def e_quo(self, d):
        return "'%s" % self.par(self.expr(None, d - 1))

    def e_fn(self, d):
        """A function of one argument."""
        r = self.rng.randrange(8)
        if self.macros and self.chance(0.5):
            return self.macro(d)
        if r == 0:
            return "fn@compose %s %s" % (self.p("fn", d), self.p("fn", d))
        if r == 1:
            return "fn@const %s" % self.p(None, d - 1)
        if r == 2:
            return "(%s -> %s -> %s) %s" % (*self.rng.sample(self.names, 2), self.par(self.expr("int", d - 1)), self.p("int", d - 1))
        n = self.rng.choice(self.names)
        return "%s -> %s" % (n, self.scoped({n: "int"}, lambda: self.body(self.ch("int", "int", "str", "list", None), d)))

    def macro(self, d):
        n = self.rng.choice(self.names)
        return "%s ~> %s" % (n, self.scoped({n: "int"}, lambda: self.body("int", d)))

    def scoped(self, more, f):
        old = dict(self.types)
        self.types.update(more)
        try:
            return f()
        finally:
            self.types = old

    def body(self, typ, d):
        return self.block(typ, d) if self.chance(0.5) else self.par(self.expr(typ, d - 1))

    def block(self, typ, d):
        out = []
        for _ in range(self.rng.randint(0, 2)):
            out.append(self.statement(d - 1))
        out.append(self.expr(typ, d - 1))
        return "{ %s }" % "; ".join(out)

    def cond(self, typ, d):
        t = self.p(self.ch("bool", "bool", "bool", "int", "str", "list", "none", "fn", "sym"), d)
        if self.chance(0.3):
            return "if %s %s" % (t, self.body(typ, d))
        if self.chance(0.2):
            return "if %s %s else if %s %s else %s" % (t, self.body(typ, d), self.p("bool", d), self.body(typ, d), self.body(typ, d))
        return "if %s %s else %s" % (t, self.body(typ, d), self.body(typ, d))

    def call(self, typ, d):
        f = self.p("fn", d)
        if self.chance(0.1):
            return "%s %s %s" % (f, self.p("int", d), self.p("int", d))
        return "%s %s" % (f, self.p("int", d))

    # -- statements --------------------------------------------------------
    def let(self, d):
        typ = self.ch("int", "int", "str", "list", "map", "fn", "fn", "bool", "quo")
        n = self.rng.choice(self.names)
        e = self.expr(typ, d)
        self.types[n] = typ
        return n, e

    def statement(self, d=None):
        d = self.nested if d is None else d
        r = self.rng.randrange(12)
        if r < 5:
            return "let %s = %s" % self.let(d)
        if r == 5:
            return "println %s" % self.p(None, d)
        if r == 6 and self.types:
            return "unbind '%s" % self.unlet()
        if r == 7:
            n = self.rng.choice(self.names)
            e = "let %s = %s" % (n, self.macro(d))
            self.types[n] = "fn"
            return e
        if r == 8:
            return "err@try %s (e -> %s)" % (self.par(self.expr(None, d - 1)), self.ch("e@code", "e@message", "e", "println e@code", "1"))
        if r == 9:
            return "%s %s" % (self.ch("eval", "exec"), self.p("quo", d))
        return self.expr(None, d)

    def unlet(self):
        n = self.rng.choice(list(self.types))
        del self.types[n]
        return n

    def session(self, n):
        self.types, self.k = {}, 0
        return [self.statement() for _ in range(n)]


def sessions(ctx, n, lo=2, hi=7, **kw):
    out = []
    while len(out) < n:
        g = ProgGen(ctx.rng, **kw)
        ps = g.session(ctx.rng.randint(lo, hi))
        if max(map(len, ps)) < 600:
            out.append(ps)
    return out
