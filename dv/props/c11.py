import itertools

from .. import prog

TECHNIQUE = "TLA+ specification of the list, map and function library; TLC proves its algebra and replays recorded calls"
LEVEL_NOTE = ("The algebra (take and drop, chunk and flatten, zip and unzip, insert and nth, items and from-items, union, difference ...) is checked by TLC on "
              "the specification for all lists up to length 5, all maps over 3 keys. Each function is then called by dune on all lists over 3 items up "
              "to length 3 with every index in and around them, all pairs of maps over 3 keys, wrong types and counts, and random larger operands, "
              "with printing and failing callbacks; values, order of calls and the operands afterwards are compared.")

INDEX = ["-3", "-2", "-1", "0", "1", "2", "3", "4", "9223372036854775807", "(-9223372036854775807 - 1)"]
COUNTED = ["list@take", "list@drop", "list@split-at", "list@chunk", "list@nth"]
ONE = ["list@head", "list@tail", "list@rev", "list@len", "len", "list@unzip", "dict@flatten", "dict@items", "dict@values", "dict@keys", "dict@len", "dict@from-items", "vals", "keys", "math@sum", "math@product", "math@max", "math@min", "list@list", "string@rev", "string@len", "lines", "join"]
TWO = ["list@zip", "list@append", "list@cons", "list@range", "dict@union", "dict@intersect", "dict@difference", "dict@has?", "dict@remove", "+", "-", "*", "@", "to", "string@join", "math@max", "math@min", "list@list"]
WRONG = ["1", "-1", "2.5", '"ab"', '"é"', "'s", "None", "True", "{a=1}", "[]", "[1, 2]", "(n -> n)", "'(1 + 2)", "[[1, 2], [3, 4]]", "[[1], [2, 3]]", "[\"a\", 1]", "{}", "(n ~> n)", "len", "[{a=1}, {b=2}]"]
MAPS = ["{%s}" % ", ".join("%s=%d" % (k, i + off) for i, k in enumerate(ks)) for n in range(4) for ks in itertools.combinations("abc", n) for off in (1, 5)]
KEYS = ['"a"', '"b"', '"z"', "'a", "'z", "1", "None", '""', "[1]", "2.5"]


def lists(n):
    return ["[%s]" % ", ".join(t) for k in range(n + 1) for t in itertools.product(["1", "2", '"a"'], repeat=k)]


FUNS = ["n -> n", "n -> n + n", "n -> [n, n]", "n -> { print n; n }", "n -> { print n; n == 2 }", "n -> None", "n -> n == 1", "n ~> { let last = n; n }", "n -> zz n", "n -> { print n; n // (n - 1) }", "len", "str", "+ 1", "fn@id", "fn@const 7", "list@list", "n -> m -> n", "1", "'zz", "n -> 'n", "n -> { unbind 'n; n }"]
FUN2 = ["p -> q -> p + q", "p -> q -> q", "p -> q -> [p, q]", "p -> q -> { print p q; p }", "p -> q -> { print q; p - q }", "+", "-", "list@list", "p -> zz p", "p -> q -> q // (q - 1)", "list@append", "p -> list@cons p", "p -> q -> (p * 2) + q", "dict@insert {} ", "1", "math@max", "math@max", "p ~> (q -> [p, q])", "p -> q -> { let p = 1; q }"]


def calls(ctx):
    out, ls = [], lists(3)
    for l in ls:
        for f in COUNTED:
            out += ["%s %s %s" % (f, i, l) for i in INDEX]
        out += ["insert %s %s 9" % (l, i) for i in INDEX] + ["%s@%s" % (l, i) for i in INDEX[:8] if i[0] != "-"] + ["%s@(%s)" % (l, i) for i in INDEX] + ["%s - %s" % (l, i) for i in INDEX]
        out += ["%s %s" % (f, l) for f in ONE]
        out += ["(l -> [%s %s l, l]) %s" % (f, i, l) for f, i in zip(COUNTED, ["1", "1", "1", "2", "0"])] + ["(l -> [list@rev l, list@tail l, list@append l 9, list@cons 9 l, insert l 0 9, l + [9], l * 2, l]) %s" % l]
    for a, b in itertools.product(lists(2), repeat=2):
        out += ["list@zip %s %s" % (a, b), "%s + %s" % (a, b), "list@append %s %s" % (a, b), "list@cons %s %s" % (a, b), "(a -> b -> [list@zip a b, a + b, a, b]) %s %s" % (a, b), "list@unzip (list@zip %s %s)" % (a, b)]
    for a, b in itertools.product(INDEX, repeat=2):
        if max(len(a), len(b)) < 5:
            out += ["list@range %s %s" % (a, b), "%s to %s" % (a, b), "to %s %s" % (a, b)]
    for a, b in itertools.product(MAPS, repeat=2):
        out += ["%s %s %s" % (f, a, b) for f in ["dict@union", "dict@intersect", "dict@difference"]] + ["(a -> b -> [dict@union a b, dict@difference b a, a, b]) %s %s" % (a, b)]
    for m in MAPS + ["{a={b=1}, c=[1, {d=2}]}", "{ab=1, aB=2, é=3, a-b=4}"]:
        out += ["%s %s" % (f, m) for f in ONE] + ["dict@from-items (dict@items %s)" % m, "for i in (dict@items %s) { i@0 }" % m]
        for k in KEYS:
            out += ["dict@has? %s %s" % (m, k), "dict@remove %s %s" % (m, k), "dict@insert %s %s 9" % (m, k), "insert %s %s 9" % (m, k), "%s@(%s)" % (m, k), "%s - %s" % (m, k), "(m -> [dict@insert m %s 9, dict@remove m %s, insert m \"n\" 8, m]) %s" % (k, k, m)]
        out += ["%s@%s" % (m, k) for k in ("a", "b", "z", "a@b", "c@0", "c@1@d")]
    return out


def functions(ctx):
    out = []
    for l in lists(2) + ["[1, 2, 3, 2]", "[[1], [2]]", "[3, 1, 2]", "[0, \"\", None, [], False]", "{a=1}", "5", "\"ab\"", "None"]:
        for f in FUNS:
            out += ["fn@map (%s) %s" % (f, l), "fn@filter (%s) %s" % (f, l), "(fn@map (%s)) %s" % (f, l), "(fn@filter (%s)) %s" % (f, l), "fn@apply (%s) %s" % (f, l), "for i in %s { (%s) i }" % (l, f)]
        for f in FUN2:
            out += ["fn@reduce (%s) 0 %s" % (f, l), "list@foldl (%s) 0 %s" % (f, l), "list@foldr (%s) 0 %s" % (f, l), "(fn@reduce (%s) 5) %s" % (f, l), "((fn@reduce (%s)) []) %s" % (f, l), "fn@apply (%s) %s" % (f, l)]
    for f, g in itertools.product(FUNS, repeat=2):
        out += ["fn@compose (%s) (%s) 3" % (f, g), "(fn@compose (%s) (%s)) 1" % (f, g), "((fn@compose (%s)) (%s)) 2" % (f, g)]
    for f in FUN2 + FUNS:
        out += ["fn@flip (%s) 1 2" % f, "(fn@flip (%s)) 5 2" % f, "fn@const (%s) 1" % f, "fn@id (%s) 1" % f, "fn@id (%s) 1 2" % f, "fn@curry (%s) 2 3 4" % f, "(fn@curry (%s) 2) 3 4" % f, "((fn@curry (%s) 2) 3) 4" % f, "fn@curry (%s) 1 3" % f, "fn@curry (%s) 0" % f, "fn@curry (%s) 3 1 2 3" % f,
                "fn@? (%s) 1 2" % f, "fn@? True (%s) 2" % f, "fn@? None 1 (%s)" % f]
    return out


def wrong(ctx):
    out = []
    names = sorted(set(ONE + TWO + COUNTED + ["insert", "dict@insert", "fn@map", "fn@filter", "fn@reduce", "list@foldl", "list@foldr", "fn@apply", "fn@compose", "fn@flip", "fn@const", "fn@curry", "fn@?", "fn@id", "rand@choose"]))
    for f in names:
        g = f if f[0].isalpha() else "(%s)" % f
        out += [g] + ["%s %s" % (g, a) for a in WRONG] + ["%s %s %s" % (g, a, b) for a in WRONG for b in WRONG]
        triples = list(itertools.product(WRONG, repeat=3))
        out += ["%s %s %s %s" % (g, *t) for t in ctx.rng.sample(triples, ctx.n(60, 1500))]
        out += ["%s 1 2 3 4" % g, "%s [] [] [] []" % g, "%s { print 1; 2 } { print 2; [3] } { print 3; 4 }" % g, "%s (zz 1) { print 2; 1 } 3" % g, "%s { print 1; [1] } (1 // 0) { print 3; 1 }" % g]
    return [p for p in out if not ("* 9" in p or "%s" in p)]


def randoms(ctx, n):
    rng, out = ctx.rng, []

    def val(d=2):
        r = rng.random()
        if r < 0.5 or d == 0:
            return rng.choice(["0", "1", "2", "3", "-5", "10", "2.5", '"a"', '"bc"', '"é中"', '"x y"', "None", "True", "'s", "''s"])
        if r < 0.8:
            return "[%s]" % ", ".join(val(d - 1) for _ in range(rng.randrange(5)))
        return "{%s}" % ", ".join("%s=%s" % (k, val(d - 1)) for k in rng.sample("abcd", rng.randrange(4)))

    def lst():
        return "[%s]" % ", ".join(val() for _ in range(rng.randrange(9)))

    def mp():
        return "{%s}" % ", ".join("%s=%s" % (k, val()) for k in rng.sample(["a", "b", "c", "d", "ab", "é"], rng.randrange(6)))

    def some(d=2):
        r = rng.randrange(12)
        if d == 0 or r == 0:
            return lst()
        x = some(d - 1)
        i = str(rng.randint(-2, 9)) if rng.random() < 0.9 else rng.choice(INDEX)
        return ["(list@take %s %s)" % (i, x), "(list@drop %s %s)" % (i, x), "(list@rev %s)" % x, "(list@chunk %s %s)" % (i, x), "(%s + %s)" % (x, lst()), "(list@zip %s %s)" % (x, lst()), "(insert %s %s %s)" % (x, i, val()), "(list@split-at %s %s)" % (i, x),
                "(fn@map (%s) %s)" % (rng.choice(FUNS), x), "(fn@filter (%s) %s)" % (rng.choice(FUNS), x), "(list@foldr (p -> q -> list@cons p q) [] %s)" % x][r - 1]
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            e = some(3)
            out.append(rng.choice(["%s", "len %s", "list@nth -1 %s", "dict@flatten %s", "list@unzip %s", "%s == %s" % ("%s", lst()), "list@head %s", "str %s"]) % e)
        elif r < 0.8:
            m = mp()
            for _ in range(rng.randint(1, 3)):
                m = rng.choice(["(dict@union %s %s)" % (m, mp()), "(dict@difference %s %s)" % (m, mp()), "(dict@intersect %s %s)" % (mp(), m), "(dict@insert %s %s %s)" % (m, rng.choice(KEYS), val()), "(dict@remove %s %s)" % (m, rng.choice(KEYS))])
            out.append(rng.choice(["%s", "dict@items %s", "dict@keys %s", "dict@values %s", "dict@flatten %s", "dict@len %s", "dict@from-items (dict@items %s)"]) % m)
        elif r < 0.9:
            out.append("%s (%s) %s %s" % (rng.choice(["fn@reduce", "list@foldl", "list@foldr"]), rng.choice(FUN2), val(1), some(1)))
        else:
            out.append("dict@from-items [%s]" % ", ".join(rng.choice(["[%s, %s]" % (rng.choice(KEYS), val(1)), "[%s, %s]" % (rng.choice(KEYS), val(1)), val(1)]) for _ in range(rng.randrange(5))))
    return out


def check(ctx):
    for w in ("list", "map"):
        ctx.model_check("DesignLib", cfg="DesignLib_" + w, what="algebra of " + w + "s", at_least=60)
    for name, ps in (("calls", calls(ctx)), ("functions", functions(ctx)), ("wrong arguments", wrong(ctx)), ("random operands", randoms(ctx, ctx.n(3000, 80000)))):
        prog.judge(ctx, [prog.session(r, show=True, msg=True, each=True) for r in prog.packed(ps, 100)], name, max_skip=0.1)
