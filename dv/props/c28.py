import itertools

from .. import prog
from .c13 import T

TECHNIQUE = "TLA+ specification of listings, patterns and trees over the file tree; TLC proves them complete and exact on every small tree and replays recorded sessions"
LEVEL_NOTE = ("TLC compares, for every tree of up to 4 (deep: 5) nodes over hostile names and every pattern of up to 3 parts, what the specification's glob finds with a declarative "
              "definition of matching (every path of the tree that fits, once, in order), and ls and tree with the nodes there are. dune then lists, globs and draws trees with "
              "nested, empty, crowded and oddly named directories, from every directory and by every kind of path and pattern, before and after changes, as an unprivileged user "
              "in scratch trees; values and messages are compared.")

CROWD = T(*[("d%d" % i,) for i in range(4)] + [("d%d/f%d" % (i, j), "x") for i in range(4) for j in range(3)] + [("f%02d" % i, "") for i in range(12)])
TREES = [
    T(),
    T(("a",), ("a/b",), ("a/b/c",), ("a/b/c/d",), ("a/b/x.txt", "1"), ("a/x.txt", "2"), ("x.txt", "3"), ("y.md", "4"), ("e",), ("A", "5")),
    T(("a*b [x]",), ("a*b [x]/q?",), ("a*b [x]/q?/z", ""), ("a*b [x]/-", "-"), ("ab", ""), ("a-b", ""), ("[", "s"), ("]", ""), ("!", ""), ("a]b", "")),
    T((".h",), (".h/x", ""), (".h/.i", ""), ("v",), ("v/.j", ""), ("v/k", ""), (".l", ""), ("..m", "")),
    T(("é",), ("é/中 x", ""), ("é/é", ""), ("中", ""), ("e b", ""), ("e b.txt", ""), ("e  b", "")),
    CROWD,
    T(("one",), ("one/one",), ("one/one/one",), ("one/one/one/one", "end"), ("two", "")),
    T(("a",), ("a/x", ""), ("l", ["link", "a"]), ("m", ["link", "a/x"]), ("n", ["link", "nowhere"]), ("a/up", ["link", "../b"]), ("b",), ("b/y", "")),
]
PATHS = ["", ".", "..", "./", "a", "a/", "a/.", "a/b", "a/b/..", "./a", "a//b", "x.txt", "x.txt/", "no", "no/..", "a/no", "a*b [x]", "a*b [x]/q?", ".h", "v", "é", "é/中 x", "d1", "one/one", "l", "m", "n", "*", "é/../é", "A", " ", "a/x"]
PATTERNS = ["*", "**", "**/*", "*/*", "*/*/*", "**/x*", "*.txt", "**/*.txt", "a*", "*a*", "?", "??", "???*", "[a-c]", "[!a-c]*", "[a-c]*", "[A-Z]*", "[é]*", "[]]", "[[]", "[!]]*", "[!!]*", "[-a]*", "[a-]*", "a[*]b*", "a[]]b", "*/", "**/", "a/*", "a/*/", "a/**", "a/**/*", "a/*/c", "*/b/*", "./*", "../*", "a/../*", ".*", ".h/*", ".h/.*", "*/.*",
            "x.txt", "x.txt/", "no", "no/*", "a*b [x]", "a*b [[]x]/*", "é/*", "*é*", "?/?*", "e b*", "* *", "f0?", "f0[0-4]", "f[01][!5]", "d[0-9]/f[12]", "d*/f*", "**/f1", "**/one", "one/**/one", "**/one/*", "**/**", "**/**/x*", "*/**", "***", "a**", "**b", "a/**b", "[", "[a", "a[", "[!", "[]", "[!]", "[a-]", "[z-a]", "[a-c", "{a,b}", "{", "\\\\*", "!*", "~", "", "/", "a|b", "*x", "x*t", "*t*t*", "*.*", "*b*", "?*?*?", "Z*", "[^a]*"]
ODD = ["5", "None", "[\"a\"]", "'a", "'(a)", "True", "1.5", "{a=1}", "(x -> x)", "(zz 1)", "{ print 1; \"a\" }", "a"]
DEPTHS = ["0", "1", "2", "3", "-1", "9", "9223372036854775807", "(-9223372036854775807 - 1)"]
CHANGES = ["fs@mkdir \"a/new/deep\"", "fs@write \"a.txt\" 1", "fs@write \"a/zz.txt\" 1", "fs@rm \"a\"", "fs@rm \"x.txt\"", "fs@mv \"x.txt\" \"a/moved.txt\"", "fs@cp \"a\" \"copy\"", "fs@rmdir \"e\"", "fs@mkdir \"[x]\"", "fs@write \"*\" 1", "fs@write \"a b\" 1", "cd \"a\"", "sys@cd \"a\""]


def at(t):
    return [""] + ["/".join(p) for p, n in t if n[0] == "dir"]


def sessions(ctx):
    rng, out = ctx.rng, []
    for t in TREES:
        dirs = at(t)
        for cwd in dirs if len(dirs) < 6 or ctx.thorough else dirs[:1] + rng.sample(dirs[1:], 4):
            pre = ["cd \"%s\"" % cwd] if cwd else []
            pats = ['fs@glob "%s"' % p for p in (PATTERNS if ctx.thorough or not cwd else rng.sample(PATTERNS, 40))]
            pats += ["fs@ls \"%s\"" % p for p in PATHS] + ["fs@tree \"%s\"" % p for p in PATHS] + ["fs@canon \"%s\"" % p for p in PATHS]
            pats += ["fs@tree %s \"%s\"" % (d, rng.choice(PATHS)) for d in DEPTHS] + ["fs@tree %s" % d for d in DEPTHS] + ["fs@tree %s \"%s\"" % (d, p) for d, p in itertools.product(DEPTHS[:3], (".", "a", "a/b", ".."))]
            pats += ["ls", "ls \".\"", "fs@ls CWD", "fs@tree CWD", "fs@canon CWD", "fs@tree _", "fs@ls (fs@canon \".\")", "fs@glob (CWD + \"/*\")"]
            rng.shuffle(pats)
            out += [(t, pre + pats[i:i + 24]) for i in range(0, len(pats), 24)]
    for f in ("fs@ls", "fs@tree", "fs@glob", "fs@canon", "fs@tree 1", "fs@tree 2"):
        out.append((TREES[1], ["%s %s" % (f, v) for v in ODD] + [f, f + " 1 2 3", "%s \"a\" \"b\"" % f, "\".\" | %s" % f, "%s \"a\" \"a\" \"a\"" % f]))
    uses = ["for p in (fs@glob \"*\") { fs@exists? p }", "fn@map fs@is-dir? (fs@glob \"**/*\")", "fn@map fs@canon (fs@glob \"*\")", "len (fs@glob \"*\") == len (fs@ls \".\")", "list@rev (fs@glob \"*\")", "for p in (fs@glob \"*/\") { fs@glob (p + \"/*\") }",
            "(fs@tree \".\")@a", "dict@keys (fs@tree \".\")", "dict@keys ((fs@tree 1 \".\")@a)", "((fs@tree \".\")@a)@b", "(x -> fs@glob x) \"*\"", "{ cd \"a\"; fs@glob \"*\" }", "eval '(fs@glob \"*\")", "println (fs@glob \"*\")", "vargv (fs@glob \"*\")", "fs@glob \"a/*\" | len"]
    for t in TREES:
        out.append((t, uses))
    return out


def randoms(ctx, n):
    rng, out = ctx.rng, []
    names = ["a", "b", "c", "ab", "a.b", "B", "1", "a b", "é", "-", "[", "x*", "~", "#", ".c"]

    def tree():
        nodes, dirs = [], [""]
        for _ in range(rng.randint(0, 9)):
            p = (rng.choice(dirs) + "/" + rng.choice(names)).lstrip("/")
            if any(p == x[0] for x in nodes):
                continue
            if rng.random() < 0.5 and p.count("/") < 3:
                nodes.append((p,)), dirs.append(p)
            else:
                nodes.append((p, ""))
        return T(*nodes), dirs, [x[0] for x in nodes]

    def part():
        return "".join(rng.choice(["*", "?", "a", "b", "c", ".", "B", "é", "[ab]", "[!a]", "[a-z]", "[!.-é]", " ", "-", "x"]) for _ in range(rng.choice([1, 1, 2, 2, 3]))).replace("**", "*")

    def pattern():
        ps = ["**" if rng.random() < 0.2 else part() for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        return "/".join(ps) + rng.choice(["", "", "", "/"])
    for _ in range(n):
        t, dirs, every = tree()
        s = []
        for _ in range(rng.randint(4, 10)):
            p = rng.choice(dirs + every + ["..", "no"])
            s.append(rng.choice(["fs@glob \"%s\"" % pattern()] * 6 + ["fs@ls \"%s\"" % p, "fs@tree \"%s\"" % p, "fs@tree %d \"%s\"" % (rng.randint(0, 3), p), "fs@canon \"%s\"" % p, "cd \"%s\"" % p.replace("..", "."), rng.choice(CHANGES), "fs@rm \"%s\"" % rng.choice(every + ["no"]), "fs@mkdir \"%s/%s\"" % (rng.choice(dirs) or ".", rng.choice(names))]))
        out.append((t, s))
    return out


def check(ctx):
    ctx.model_check("DesignGlob", cfg="DesignGlob" if not ctx.thorough else "DesignGlob_deep", what="listings report exactly what there is", at_least=50)
    for name, ss in (("listings of trees", sessions(ctx)), ("random trees and patterns", randoms(ctx, ctx.n(1200, 40000)))):
        prog.judge(ctx, [prog.session(s, show=True, msg=True, cwds=True, tree=t, each=True) for t, s in ss], name, max_skip=0.35)
