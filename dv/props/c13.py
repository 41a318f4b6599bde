import itertools

from .. import prog

TECHNIQUE = "TLA+ specification of the file tree and the file functions; TLC proves the promises on every small tree and replays recorded sessions"
LEVEL_NOTE = ("On the specification TLC checks, for every operation with every pair of 13 paths on every tree of up to 3 nodes the operations can build, that failures "
              "change nothing, nothing but the named places changes, nothing is overwritten by mv and cp, and that reads agree with the tree. dune then "
              "runs every operation on all pairs of 16 paths in trees with files, nested and empty directories, links and binary data, followed by "
              "further ones, and random longer sessions, as an unprivileged user in scratch trees; result, message and the whole tree are compared after every step.")


def T(*nodes):
    return [[n[0].split("/") if n[0] else [], ["dir"] if len(n) == 1 else n[1] if isinstance(n[1], list) else ["file", ["str", n[1]]]] for n in nodes]


TREES = [
    T(),
    T(("a", "one\ntwo\n"), ("b",), ("b/x", "X")),
    T(("a",), ("a/x", "X"), ("a/y",), ("a/y/z", "Z\n"), ("b", "B")),
    T(("a",), ("b",), ("c", "")),
    T(("a",), ("a/b",), ("a/b/c",), ("a/b/c/d", "deep"), ("c", "1\n2\n3\n4"), ("é",), ("é/中 x", "wide é")),
    T(("a", ["file", ["bytes", [0, 255, 10, 128]]]), ("b",), ("b/a", "\n\n"), ("x", "no end")),
    T(("a", "one\r\ntwo\r\n\r\n"), ("b",), ("b/x", " lead\ttrail \r"), ("b/a", ""), ("b/b",), ("b/c",), ("b/c/e",), ("c", "\r\n"), ("é", "é\r\n中")),
    T(("a",), ("a/x", "X"), ("l", ["link", "a"]), ("m", ["link", "a/x"]), ("n", ["link", "nowhere"]), ("b", "B")),
]
PATHS = ["a", "b", "c", "a/x", "a/y", "b/x", "a/b", "a/b/c", "c/d/e", "./a", "a/", "b/.", "é/中 x", "x", "a/../b", "l/x"]
ODD = ["", ".", "./", "a//x", "a/./x", "a/y/..", "m", "n", "l", "l/..", "n/x", "*", "a b", "-r", "~", "$HOME", "a/y/z/q", "\\\\"]
DATA = ['"1\\r\\n2\\r\\n"', '" \\t "', '"a\\r"', '"new"', '""', '"é中\\n"', '"no end"', "5", "[1, 2]", "None", "{a=1}", "'s", '"a\\nb\\n"', '(fs@read "a")', '(fs@read "c")', "2.5"]
READS = ["fs@read", "fs@exists?", "fs@is-dir?", "fs@is-file?", "fs@ls", "fs@canon", "fs@tree", "<<"]


def q(p, rng=None):
    return '"%s"' % p


def one(p):
    s = q(p)
    return ["fs@mkdir " + s, "fs@rmdir " + s, "fs@rm " + s]


def writes(rng, p):
    s, d = q(p), rng.choice(DATA)
    return ["fs@write %s %s" % (s, d), "fs@append %s %s" % (s, d), "%s >> %s" % (d, s), "%s >>> %s" % (d, s)]


def probe(rng, p):
    return ["(%s) %s" % (rng.choice(READS), q(p))]


def sessions(ctx):
    """Each operation on each pair of paths, then another one and a look."""
    rng, out = ctx.rng, []

    def follow(p, r):
        nxt = rng.choice([lambda: rng.choice(one(rng.choice([p, r]))), lambda: "fs@mv %s %s" % (q(r), q(p)), lambda: "fs@cp %s %s" % (q(r), q(rng.choice(PATHS))), lambda: rng.choice(writes(rng, p)), lambda: "fs@mv %s %s" % (q(r), q(rng.choice(PATHS)))])
        return [nxt()] + probe(rng, rng.choice([p, r]))
    for t in TREES:
        for p in PATHS + ODD:
            for o in one(p) + writes(rng, p):
                out.append((t, [o] + follow(p, rng.choice(PATHS))))
            out.append((t, ["(%s) %s" % (r, q(p)) for r in READS] + ["fs@head %s 1" % q(p), "fs@tail %s 2" % q(p), "fs@read (CWD + \"/%s\")" % p, "fs@glob %s" % q(p)]))
        for p, r in itertools.product(PATHS, repeat=2):
            for o in ("fs@mv", "fs@cp"):
                out.append((t, ["%s %s %s" % (o, q(p), q(r))] + follow(p, r)))
        for p, r in [(rng.choice(ODD + PATHS), rng.choice(ODD)) for _ in range(ctx.n(40, 600))]:
            if rng.random() < 0.5:
                p, r = r, p
            out.append((t, ["%s %s %s" % (rng.choice(["fs@mv", "fs@cp"]), q(p), q(r))] + follow(p, r)))
        for n in ["0", "1", "2", "3", "100", "-1", "9223372036854775807", "(-9223372036854775807 - 1)", "1.5", "None"]:
            out.append((t, ["fs@head \"%s\" %s" % (p, n) for p in ("a", "b", "c", "x", "b/a", "zz")] + ["fs@tail \"%s\" %s" % (p, n) for p in ("a", "b", "c", "x", "b/a", "zz")] + ["fs@tree %s" % n, "fs@tree %s \"a\"" % n]))
        out.append((t, ["fs@glob \"%s\"" % g for g in ("*", "*/*", "a/*", "?", "??", "*x*", "a/y/*", "zz*", "é/*", "*/x", "*/*/*/*", "")]))
    return out


def randoms(ctx, n):
    rng, out = ctx.rng, []
    for _ in range(n):
        pool = rng.sample(PATHS, 6) + rng.sample(ODD, 2)
        s = []
        for _ in range(rng.randint(4, 14)):
            p, r = rng.choice(pool), rng.choice(pool)
            if rng.random() < 0.1:
                p = "\" + CWD + \"/" + p
            s.append(rng.choice([
                lambda: rng.choice(one(p)), lambda: rng.choice(writes(rng, p)), lambda: rng.choice(writes(rng, p)), lambda: "fs@mv %s %s" % (q(p), q(r)), lambda: "fs@cp %s %s" % (q(p), q(r)), lambda: probe(rng, p)[0],
                lambda: "fs@mkdir %s" % q(p), lambda: "for i in [1, 2] { i >> \"c\" + i }", lambda: "for i in [1, 2, 3] { fs@append %s i }" % q(p), lambda: "fs@ls \".\"",
                lambda: "fn@map fs@exists? [\"a\", \"b\", %s]" % q(p), lambda: "err@try { fs@mv %s %s; fs@rm %s } (e -> fs@ls \".\")" % (q(p), q(r), q(r)), lambda: "let t = (fs@read %s)" % q(p), lambda: "fs@write %s t" % q(r),
                lambda: "\"%s\" | vcat >> %s" % (rng.choice(["x", "é\\n"]), q(p)), lambda: "<< %s | vcat" % q(p), lambda: "cd %s" % q(p) if rng.random() < 0.5 else "fs@ls %s" % q(p)])().replace('"" + CWD', 'CWD'))
        out.append((rng.choice(TREES), s))
    return out


def check(ctx):
    ctx.model_check("DesignFs", cfg="DesignFs" if not ctx.thorough else "DesignFs_deep", what="promises of the file functions", at_least=200, timeout=3000)
    for name, ss, skip in (("operations", sessions(ctx), 0.25), ("random sessions", randoms(ctx, ctx.n(1200, 30000)), 0.35)):
        prog.judge(ctx, [prog.session(s, show=True, msg=True, cwds=True, tree=t) for t, s in ss], name, max_skip=skip)
