import itertools

from .. import prog

TECHNIQUE = "TLA+ evaluator with one set of bindings behind every way to bind, read and remove names; TLC proves the laws of binding and replays recorded sessions"
LEVEL_NOTE = ("TLC checks on the specification, in all states of histories up to 2 programs, that setting and removing a name does that and nothing else, and that every way to ask "
              "agrees. dune then runs all pairs (thorough: triples) of 45 statements which bind, remove, shadow and look at names, new and built in, each asked in every way afterwards, "
              "with the changes of all bindings compared after every step; the same inside functions, macros, quoted code and files; and random sessions.")

NAMES = ["x", "len", "math", "CWD2", "n1", "y"]
SET = ["let x = 1", "let x = 'x", "let x = x", "let x = None", "sys@set x 5", "sys@set \"x\" (1 + 2)", "sys@set x { print \"now\"; 7 }", "sys@set x x", "sys@set x y", "sys@set 5 6", "sys@set [1] 2", "sys@set \"two words\" 3", "sys@set \"\" 4", "let len = 3", "sys@set len (v -> 99)", "let math = {abs=1}", "let y = x", "let f = k -> [k, x, len]",
       "let g = k ~> sys@set k 8", "let x = k -> x"]
CUT = ["unbind 'x", "unbind \"x\"", "unbind 'len", "unbind \"math\"", "unbind 'nothing", "unbind 5", "unbind x", "unbind", "sys@unset x", "sys@unset \"x\"", "sys@unset len", "sys@unset (1 + 2)", "sys@unset std", "sys@unset", "sys@unset x y", "unbind 'unbind", "unbind '+", "sys@unset sys", "unbind 'f"]
IN = ["f 1", "g x", "(k -> { sys@set x k; x }) 3", "(k -> { unbind 'x; x }) 3", "(x ~> x) 9", "eval '(let x = 12)", "exec '(let x = 12)", "eval '(unbind 'x)", "exec '(unbind \"x\")", "for x in [1, 2] { sys@set y x }", "(k -> { sys@unset len; len \"a\" }) 1"]
ASK = ["[x, y]", "sys@defined? x", "sys@defined? \"len\"", "len \"four\"", "[sys@defined? math, sys@defined? std, sys@defined? nothing, sys@defined? (1 + 2)]", "dict@has? (vars) \"x\"", "(k -> [x, sys@defined? x, k]) 4", "err@try (std@len \"ab\") (e -> 0)"]



def histories(ctx):
    pool = SET + CUT + IN
    out = [list(t) + ASK for t in itertools.product(pool, repeat=2)]
    if ctx.thorough:
        out += [list(t) + ASK for t in itertools.product(pool[::2], repeat=3)]
    out += [[ctx.rng.choice(pool + ASK) for _ in range(ctx.rng.randint(4, 9))] + ASK for _ in range(ctx.n(700, 20000))]
    return out


def places(ctx):
    """Each of them in each scope, asked inside and afterwards."""
    out = []
    for st, n in itertools.product(SET + CUT, ["x", "len"]):
        s = st.replace("x", n) if n == "len" else st
        inside = "[sys@defined? %s, %s, dict@has? (sys@env) \"%s\"]" % (n, n, n)
        after = ["sys@defined? %s" % n, "%s" % n if n == "x" else "len \"abc\"", "y"]
        for place in ["{ %s; %s }", "(k -> { %s; %s }) 1", "(k ~> { %s; %s }) 1", "eval '{ %s; %s }", "exec '{ %s; %s }", "for i in [1, 2] { %s; %s }", "if True { %s; %s } else {}", "[{ %s; %s }]", "err@try { %s; %s; zz 1 } (e -> x)", "fn@map (k -> { %s; %s }) [1, 2]", "1 | (k -> { %s; %s })", "exec (parse@expr \"{ %s; %s }\")"]:
            if "parse" in place and '"' in s + inside:
                s2, i2 = s.replace('"', '\\"'), inside.replace('"', '\\"')
            else:
                s2, i2 = s, inside
            out.append(["let x = 40", "let y = 2", place % (s2, i2)] + after)
            if ctx.rng.random() < 0.4:
                out.append([place % (s2, i2)] + after)
    return out


def whole(ctx):
    """What vars and sys@env list."""
    out = []
    for s in SET[:8] + CUT[:8]:
        out.append(["let a = 1", s, "(vars)@a", "(vars)@x", "len (vars) - len (sys@env)", "dict@has? (vars) \"len\"", "dict@has? (sys@env) \"x\"", "(n -> dict@has? (vars) \"n\") 5", "(n -> (sys@env)@n) 5", "(n -> dict@has? (vars) \"a\") 5", "(n -> { a; dict@has? (vars) \"a\" }) 5", "(vars)@CWD == CWD", "sys@env 1", "vars 1", "let e = sys@env", "let a = 2", "(e)@a", "[a]"])
    return out


def quotes(ctx):
    out = []
    for e in ["x", "1 + 2", "{ print 1; 2 }", "(x -> y)", "'x", "[1, x]", "let q = 1", "\"a\"", "(zz 1)", "{a=x}", "for i in [1] i", "sys@quote 1", "None"]:
        for w in ["sys@quote (%s)", "exec (sys@quote (%s))", "eval (sys@quote (%s))", "let q = (sys@quote (%s))", "(sys@quote (%s)) == '(%s)", "str (sys@quote (%s))", "(k -> sys@quote (%s)) 1", "sys@quote (%s) 2"]:
            out.append(["let x = 3", w.replace("%s", e) if e[0] in "{[('" or True else "", "q", "x"])
    out.append(["sys@quote", "sys@quote 1 2", "sys@parse", "sys@parse 1 2"])
    for t in ["1 + 2", "x", "", "(", "let z = 5", "1 +", "'x", "{ print 1 }", "# c", "a b c", "\\\"q\\\"", "99999999999999999999"]:
        out.append(["let x = 3", "sys@parse \"%s\"" % t, "exec (sys@parse \"%s\")" % t, "z", "let p = (sys@parse \"%s\")" % t, "p", "exec p", "eval p", "parse@expr \"%s\"" % t, "sys@parse (\"%s\" + \" \")" % t])
    out.append(["sys@parse %s" % v for v in ("1", "None", "[1]", "'x", "(x -> x)", "2.5", "(zz 1)", "{ print 1; \"2\" }", "True", "-3")])
    return out


def check(ctx):
    ctx.laws("BindLaw AskLaw", ctx.n(1, 2), "laws of binding and removing names")
    for name, ss in (("histories", histories(ctx)), ("places", places(ctx)), ("listings, quotes and texts of code", whole(ctx) + quotes(ctx))):
        prog.judge(ctx, [prog.session(s, msg=True, tree=[]) for s in ss], name, max_skip=0.2)
