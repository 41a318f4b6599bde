import itertools

from .. import prog

TECHNIQUE = "TLA+ specification of the log level and the log functions; TLC checks the law and replays recorded sessions"
LEVEL_NOTE = ("TLC checks on the specification that a message is printed, and evaluated, exactly when its level is enabled, in all states of histories up to 2 "
              "programs. dune then runs all sequences of two level changes each followed by all log calls, all integer levels around and beyond the "
              "named ones, messages of every shape, and random sessions with functions, loops, failures and pipes; the exact output and the level are compared.")

LEVELS = ["0", "1", "2", "3", "4", "5", "6", "-1", "100", "9223372036854775807", "(-9223372036854775807 - 1)"] + ["log@level@" + n for n in ("none", "error", "warn", "info", "debug", "trace")]
NAMES = ["error", "warn", "info", "debug", "trace"]
SET = ["log@set-level %s" % l for l in LEVELS] + ["log@disable", "let f = (log@set-level 4)", "(x -> { log@set-level x; log@info \"in\" }) 3", "(x -> { log@disable; x }) 3", "log@set-level \"3\"", "log@set-level 3.0", "log@set-level None", "log@set-level", "log@set-level 1 2",
       "log@set-level (zz 1)", "log@disable 1", "log@set-level { log@info \"e\"; 5 }", "(m ~> { log@set-level 2; m }) 1", "err@try { log@set-level 4; 1 // 0 } (e -> 0)", "let log2 = log; log2@set-level 3", "for i in [5, 1, 3] { log@set-level i; log@info i }", "eval '(log@set-level 4)", "sys@exec '(log@set-level 2)"]
MSG = ['"m"', '""', '"a\\nb"', '"a\\n"', '"\\n"', '"\\n\\n"', '"a\\nb\\n"', '"é中"', "1", "None", "[1, \"a\"]", "{a=1}", "'s", "''s", "(x -> x)", '"a" "b"', '"a\\n" "b"', '"a" "b\\n"', '"a\\nb" "c\\nd"', '"" ""', '"a\\n" "b\\n" "c"', "1 2 3", '"a" "\\n" "b"', '"\\n" ""', "[[1], [2]]", "'(1 + 2)",
       "{ print \"e\"; 1 }", "(zz 1)", '"x" (zz 1)', "{ print \"e\"; 1 } { print \"f\"; \"g\\nh\" }", "\"a\" (1 // 0) { print \"no\"; 1 }", "{ log@set-level 5; \"raised\" }", "{ log@disable; \"off\" }", "{ log@info \"in\"; 2 }", "(\"a\" * 3)", '"a\\rb"', '"\\t"']


def sessions(ctx):
    out = []
    for lv in LEVELS + ["log@get-level"]:
        base = ["log@set-level %s" % lv if lv != "log@get-level" else "log@get-level"]
        probe = ["log@%s \"%s\"" % (n, n) for n in NAMES] + ["log@get-level"] + ["log@enabled? %s" % l for l in LEVELS]
        out.append(base + probe)
        for n in NAMES:
            out.append(base + ["log@%s %s" % (n, m) for m in MSG[:31]])
            out.append(base + ["log@%s { print \"once\"; %s }" % (n, m) for m in ('"a\\nb"', "zz 1", "None")] + ["log@%s" % n, "(log@%s) 1 2" % n, "log@get-level"])
    for a, b in itertools.product(SET, repeat=2):
        out.append([a, "log@get-level", "log@warn \"w\"", b] + ["log@%s \"%s\"" % (n, n) for n in NAMES] + ["log@get-level"])
    out.append(["log", "log@level"] + ["log@echo %s" % m for m in MSG[:31]] + ["echo %s" % m for m in MSG[:31]] + ["log@enabled? %s" % v for v in ('"a"', "None", "2.5", "[1]", "", "1 2", "(zz 1)", "{ print 1; 3 }")] + ["log@get-level 1"])
    return out


def randoms(ctx, n):
    rng, out = ctx.rng, []
    for _ in range(n):
        s = []
        for _ in range(rng.randint(3, 14)):
            r = rng.random()
            if r < 0.3:
                s.append(rng.choice(SET))
                continue
            call = "log@%s %s" % (rng.choice(NAMES), " ".join(rng.choice(MSG) for _ in range(rng.choice([1, 1, 1, 2, 3]))))
            s.append(rng.choice(["%s", "%s", "%s", "(x -> { %s }) 1", "let f = x -> { %s }", "if (log@enabled? 3) { %s } else { print \"no\" }", "for i in [1, 2] { %s }", "f 1", "log@get-level", "err@try { %s } (e -> e@message)", "(m ~> { %s }) 1", "fn@map (x -> { %s }) [1, 2]", "5 | (x -> { %s })"]).replace("%s", call))
        out.append(s)
    return out


def check(ctx):
    ctx.laws("LogLaw", ctx.n(1, 2), "a message is printed exactly when its level is enabled")
    for name, ss in (("levels and messages", sessions(ctx)), ("random sessions", randoms(ctx, ctx.n(1500, 40000)))):
        prog.judge(ctx, [prog.session(r, show=True, msg=True) for r in ss], name, max_skip=0.1)
