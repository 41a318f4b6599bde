import itertools

from .. import prog, proggen
from .c04 import PLACES

TECHNIQUE = "TLA+ evaluator (macros run in the calling scope); TLC replays recorded sessions step by step"
LEVEL_NOTE = ("TLC runs the TLA+ evaluator on each recorded session and compares value, output and every binding after each "
              "program: all histories of 2 statements (3 when thorough) over a pool of 22 macro-related statements, every syntactic "
              "position of the parameter in a macro body, applications to several arguments, and random sessions.")

POOL = [
    "let m = p ~> p", "let m = p ~> let x = p", "let m = p ~> { let x = p; let y = x; x }", "let m = p ~> [p, x]",
    "let m = p ~> q ~> [p, q, x]", "let m = p ~> q -> [p, q, x]", "let m = x -> y ~> { let z = [x, y]; z }", "let x = 1", "let y = 'x",
    "m 1", "m 1 2", "(m 1) 2", "m x", "m (m 3)", "m { let x = 5; x }", "let f = a -> { m a; [a, p, x] }", "f 7", "unbind 'p", "unbind 'm",
    "let m = m ~> { let m = 3; m }", "for x in [1, 2] { m x }", "let r = m 9", "let m = p ~> unbind 'x", "m (println \"arg\")",
]
PROBES = ["[p, q, x, y, z]", "m 4", "p"]


def families(ctx):
    out = []
    for pl in PLACES:
        body = pl.replace("V", "v")
        base = ["let f1 = k -> [k]"]
        out.append(base + ["let m = v ~> %s" % body, "m 5", "v", "m 6", "let v = 1", "m 7", "v", "vars@v"])
        # A free name of the body is the caller's at the time of the call.
        out.append(base + ["let v = 5", "let m = n ~> %s" % body, "m 1", "let v = 6", "m 1", "unbind 'v", "m 1", "n"])
        # Called within a function: the function's scope.
        out.append(base + ["let v = 5", "let m = n ~> %s" % body, "let f = v -> { m 1 }", "f 8", "v", "n", "let v = 9", "f 8", "(v -> m v) 3"])
        out.append(base + ["let m = n ~> { let w = %s; let u = n }" % body.replace("v", "n"), "m 2", "[w, u, n]", "let f = k -> { m k; [w, u, n] }", "f 3", "[w, u, n]"])
    ms = ["a ~> b ~> c ~> [a, b, c]", "a ~> b -> c -> [a, b, c]", "a -> b ~> c ~> [a, b, c]", "a ~> { let x = a; b ~> c ~> { let y = b; [x, y, c] } }",
          "a ~> if a { b ~> c ~> [b, c] } else { b -> c -> [c, b] }", "a ~> a", "a ~> list@list", "a ~> b ~> 'zz",
          "a ~> { let b = 10; (b ~> { c ~> [a, b, c] }) }", "a ~> fn@map", "a ~> { print a; b ~> { print b; c ~> { print c; [a, b, c] } } }"]
    for m, args in itertools.product(ms, [["1", "2", "3"], ["0", "a", "b"], ["{print 1; 5}", "{print a; 6}", "{print b; 7}"], ["zz 1", "2", "3"],
                                          ["1", "zz 1", "3"], ["{let a = 3; a}", "{let b = a; b}", "{let c = b; [a, b, c]}"]]):
        g = ["(%s)" % x for x in args]
        for call in ["m %s %s %s" % tuple(g), "(m %s %s) %s" % tuple(g), "((m %s) %s) %s" % tuple(g), "let p = m %s %s" % tuple(g[:2])]:
            out.append(["let a = 70", "let m = %s" % m, call, "[a, b, c, x, y]", "p %s" % g[2]])
    # A macro does what binding its parameter and writing its body does.
    bodies = ["let x = p + 1", "{ let x = p; x }", "[p, x]", "for i in [p, x] { let y = i }", "if p { let x = 0 } else { let x = 100 }",
              "exec '(let x = p)", "eval '(let x = p)", "{ unbind 'x; p }", "n -> [n, p, x]", "{ err@try (zz p) (e -> p); p }", "let p = p + 1", "{ let m = p; m }"]
    for b, a, x in itertools.product(bodies, ["1", "x", "x + 1", "{ let x = 8; x }"], ["0", "50"]):
        out.append(["let x = %s" % x, "(p ~> %s) (%s)" % (b, a), "[p, x, y]", "let x = %s" % x, "{ let p = %s; %s }" % (a, b), "[p, x, y]"])
    return out


def check(ctx):
    ctx.laws("MacroLaw MacroArg", ctx.n(2, 3), "macro laws")
    reqs = prog.histories(POOL, ctx.n(2, 3), PROBES)
    reqs += prog.some_histories(ctx.rng, POOL, ctx.n(1500, 20000), 3, 7, PROBES)
    prog.judge(ctx, [prog.session(r) for r in reqs], "macro histories")
    prog.judge(ctx, [prog.session(r, show=True, msg=True, tree=[]) for r in families(ctx)], "macro bodies and arguments")
    reqs = proggen.sessions(ctx, ctx.n(500, 10000), effects=0.03, macros=True)
    prog.judge(ctx, [prog.session(r, msg=True, tree=[]) for r in reqs], "random sessions")
