import itertools

from .. import prog, proggen

TECHNIQUE = "TLA+ evaluator (lexical closures as values); TLC replays recorded sessions step by step"
LEVEL_NOTE = ("TLC runs the TLA+ evaluator on each recorded session and compares value, printed output and the change of "
              "every binding after each program. All histories of 3 statements over a pool of 20 closure-related statements, "
              "every syntactic position of a captured name, and random sessions; beyond those it is sampling.")

POOL = [
    "let x = 1", "let x = 2", "let y = 3", "let f = y -> x + y", "let f = x -> { let y = x * 2; y }",
    "let f = a -> b -> [a, b, x]", "let f = a -> { let x = a; g 0 }", "let g = z -> x", "let g = f 5",
    "let g = n -> f", "f 1", "(f 1) 2", "f 1 2", "g 3", "let y = f 7", "unbind 'x",
    "let f = a -> { let x = 100; (b -> x + b) }", "let f = s -> n -> if (n < 1) { x } else { (s s) (n - 1) }",
    "f f", "for x in [7, 8] { f x }", "let g = fn@map f", "let f = x -> y -> x - y", "{ let x = 30; f 1 }",
    "let f = a -> { unbind 'x; x }", "let f = a -> { let g = b -> [a, b, x, y]; g }", "(x -> f x) 50",
]
PROBES = ["[x, y]", "f 10", "g 20"]

# Every place of a body in which a free name can stand; V is the name.
PLACES = ["V", "(V)", "[V]", "[1, [V]]", "{a=V}", "{a={b=V}}", "{ V }", "{ 1; V }", "{ V; 1; V }", "V + 1", "1 - V", "-V", "(- V)",
          "if V 1 else 2", "if True { V } else 2", "if False 1 else { V }", "for i in [V] { i }", "for i in [1, 2] { V }",
          "let q = V", "{ let q = V; q }", "{ let V = V + 1; V }", "b -> V", "(b -> V) 1", "(b -> c -> V) 1 2", "(b ~> V) 1",
          "b ~> V", "'V", "eval 'V", "'(V + 1)", "eval ('(V + 1))", "V@0", "[5, 6]@V", "{a=1}@V", "f1 V", "V 1", "(V)", "(f1 V)",
          "println V", "f1 (f1 V)", "err@try V (e -> 0)", "err@try (zz 1) (e -> V)", "fn@map (k -> V + k) [1, 2]", "fn@map f1 [V]",
          "V == 5", "V && True", "! V", "1 to V", "str V", "{ let V = 9; V }", "V | f1", "f1 (1 + V) | f1", "(V -> V) 3", "(V ~> V) 3",
          "for V in [1] { V }", "{ for V in [1] { V }; V }", "{ unbind 'V; V }", "sys@quote V", "vars@V", "sys@defined? V",
          "for V in [V] { 1 }", "for V in [V, 2] { [V, n] }", "for i in [1] { let V = [V, i] }", "let V = [V, 1]", "{ let V = [V]; 1 }",
          "(V -> 1) V", "(V -> [V]) [V]", "(V ~> [V]) [V]", "{ (V -> V) 1; V }", "{ (V ~> V) 1; V }", "if V { let V = 1 } else V",
          "{ let w = V; let V = w; 2 }", "{a=(V -> V), b=V}", "fn@map (V -> [V]) [V]", "V -> V", "V ~> V", "let V = { println V; 1 }", "{ let V = (f1 V) == 0; 1 }", "{ for V in { println V; [1] } { 2 }; 3 }", "(V -> 1) { println V; 3 }", "(V ~> 1) { println V; 3 }", "{ let w = println V; 2 }", "{ let V = 1 + V; 1 }", "let V = V -> V", "'(V -> V)"]


def families(ctx):
    out = []
    for p in PLACES:
        body = p.replace("V", "v")
        base = ["let f1 = k -> [k]", "let v = 5"]
        # The value when the function was created, whatever happens to the name afterwards.
        out.append(base + ["let f = n -> %s" % body, "f 1", "let v = 6", "f 1", "unbind 'v", "f 1", "v"])
        out.append(base + ["let f = n -> m -> %s" % body, "let g = f 1", "let v = 6", "g 2", "f 1 2", "(f 1) 2"])
        out.append(base + ["let mk = v -> (n -> %s)" % body, "let g = mk 7", "g 1", "(mk 3) 1", "v"])
        # Not at the call site.
        out.append(base + ["let f = n -> %s" % body, "(v -> f v) 9", "{ let v = 8; f 1 }", "for v in [1, 2] { f v }", "v"])
        # Not yet defined at all.
        out.append(["let f1 = k -> [k]", "let f = n -> %s" % body, "let v = 5", "f 1", "(v -> f v) 9"])
        # The parameter comes first.
        out.append(base + ["let f = v -> %s" % body, "f 2", "v", "f 2", "let v = 1", "f 3"])
        out.append(base + ["let f = v -> v -> %s" % body, "f 1 2", "(f 1) 2", "v"])
        # In a function in a list, in a map, passed and returned.
        out.append(base + ["let l = [n -> %s]" % body, "let m = {k = n -> %s}" % body, "let v = 6", "(l@0) 1", "(m@k) 1",
                           "fn@map (l@0) [1, 2]", "fn@compose (l@0) (m@k) 1"])
    # Two places at once: one inside the other, or one after the other.
    for _ in range(ctx.n(160, 4000)):
        p, q = ctx.rng.choice(PLACES), ctx.rng.choice(PLACES)
        body = (p.replace("V", "(%s)" % q, 1) if ctx.rng.random() < 0.6 else "{ %s; %s }" % (p, q)).replace("V", "v")
        base = ["let f1 = k -> [k]", "let v = %s" % ctx.rng.choice(["5", "[5, 6]", "'w", "k -> [k, 1]"])]
        out.append(base + ["let f = n -> %s" % body, "f 1", "let v = 6", "f 1", "(v -> f v) 9", "unbind 'v", "f 1", "v"])
    # Several arguments at once and one at a time.
    fs = ["a -> b -> c -> [a, b, c]", "a -> { let x = a; b -> c -> [x, b, c] }", "a -> b -> (c -> a + b + c)",
          "a -> if a { b -> c -> [b, c] } else { b -> c -> [c, b] }", "a -> (b ~> (c -> [a, b, c]))", "a -> b -> c -> { println a; c }",
          "a -> { let a = a + 1; b -> { let a = a + b; c -> a + c } }", "a -> a", "a -> b -> fn@map", "a -> +", "a -> b -> 'zz"]
    for f, args in itertools.product(fs, [["1", "2", "3"], ["0", "1", "x"], ["a", "b", "c"], ["{print 1; 5}", "{print 2; 6}", "{print 3; 7}"]]):
        g = ["(%s)" % x for x in args]
        out.append(["let x = 40", "let a = 50", "let f = %s" % f, "f " + " ".join(g), "(f %s %s) %s" % tuple(g), "((f %s) %s) %s" % tuple(g),
                    "(f %s) %s %s" % tuple(g), "let p = f %s %s" % (g[0], g[1]), "let x = 41", "p %s" % g[2], "f %s %s" % (g[0], g[1]), "[x, a]"])
    return out


def check(ctx):
    ctx.laws("CallLaw Lexical Shadow Several", ctx.n(1, 2), "scoping laws")
    reqs = prog.histories(POOL, 2, PROBES) if not ctx.thorough else prog.histories(POOL, 3, PROBES)
    reqs += prog.some_histories(ctx.rng, POOL, ctx.n(1200, 20000), 3, 7, PROBES)
    prog.judge(ctx, [prog.session(r) for r in reqs], "closure histories")
    prog.judge(ctx, [prog.session(r, show=True, msg=True, tree=[]) for r in families(ctx)], "places of captured names")
    reqs = proggen.sessions(ctx, ctx.n(700, 12000), effects=0.03)
    prog.judge(ctx, [prog.session(r, msg=True, tree=[]) for r in reqs], "random sessions")
