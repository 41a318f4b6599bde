import itertools

from .. import prog

TECHNIQUE = "TLA+ specification of JSON and TOML documents replayed on generated and corrupted documents; TLC checks that writing a value and reading it gives the value"
LEVEL_NOTE = ("TLC checks on the specification that reading inverts writing, for all values up to a size in several layouts, and that no proper prefix of a container is a document. dune then reads all small texts over "
              "the characters of the two formats, generated nested documents in all layouts, escapes, numbers, dates, tables and arrays of tables, and corrupted documents; the value, or "
              "the error and its message, is compared with the specification. Numbers of more than 15 digits are only compared in kind; where the TOML library differs from TOML is listed as known findings.")


def lit(t):
    """A text as a program writes it."""
    return '"%s"' % "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(c, c) for c in t)


KEYS = ["a", "b", "c", "d e", "", "é", "A", "10", "x.y", "中", "😀", "k\n", "a\"b", "\\", "null", "z" * 40, "aa", "B"]
TEXTS = ["", "a", "text", "é中😀", "a b", "\n", "\t", "\\", "\"", "/", "'", "(exit 3)", "print 1", "{", "]", "x" * 31, "y" * 300, "é" * 20, "null", "5", "\x7f", "$a", "%41", "a\r\nb", "# no", "0" * 40, "\b\f", "ß"]
NUMS = ["0", "-0", "1", "-1", "10", "42", "255", "-17", "1.5", "-2.25", "0.1", "0.3", "2.675", "3.14159", "1e2", "1E2", "1e+2", "1e-2", "1.5e3", "-1.5E-3", "0.0", "-0.0", "0e0", "0.0e5", "1e22", "1e23", "7e25", "5e-10", "123456789012345", "1234567890123456789", "9223372036854775807", "18446744073709551615", "18446744073709551616",
        "9007199254740993", "1e300", "1e400", "-1e400", "1e-400", "0.000001", "0.0000001", "1e-5", "1e-6", "1e15", "1e16", "1e17", "100000", "1.10", "1.0", "123456789012345e-30", "0.1e1", "12.5e-1", "99999e10", "1e-300", "4e-3", "6.02e23", "8.5e-7", "1" + "0" * 20, "0." + "0" * 20 + "5", "1e00002", "1e-0", "65536", "4294967296", "2.5e5", "31.0009765625", "999999999999999", "1e308", "1.7976931348623157e308", "5e-324"]


def jtext(rng, t):
    out = []
    for c in t:
        k = rng.random()
        if c in '"\\' or ord(c) < 32:
            named = {"\n": "\\n", "\t": "\\t", "\r": "\\r", '"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f"}
            out.append(named[c] if c in named and k < 0.7 else "\\u%04x" % ord(c))
        elif c == "/" and k < 0.5:
            out.append("\\/")
        elif k < 0.06:
            if ord(c) > 0xffff:
                n = ord(c) - 0x10000
                out.append("\\u%04x\\u%04X" % (0xd800 + (n >> 10), 0xdc00 + (n & 0x3ff)))
            else:
                out.append(("\\u%04x" if k < 0.03 else "\\u%04X") % ord(c))
        else:
            out.append(c)
    return '"%s"' % "".join(out)


def jdoc(rng, depth, ws):
    def w():
        return "".join(rng.choice([" ", "\n", "\t", "\r", "  "]) for _ in range(rng.randint(0, 2))) if ws and rng.random() < 0.4 else ""
    k = rng.random()
    if depth > 0 and k < 0.35:
        return "[" + w() + ",".join(w() + jdoc(rng, depth - 1, ws) + w() for _ in range(rng.choice([0, 1, 2, 3, 5]))) + "]"
    if depth > 0 and k < 0.75:
        return "{" + w() + ",".join(w() + jtext(rng, rng.choice(KEYS)) + w() + ":" + w() + jdoc(rng, depth - 1, ws) + w() for _ in range(rng.choice([0, 1, 2, 3, 5]))) + "}"
    return rng.choice([lambda: rng.choice(["null", "true", "false"]), lambda: rng.choice(NUMS), lambda: jtext(rng, rng.choice(TEXTS))])()


JODD = ["", " ", "\n", "[", "]", "{", "}", "[]", "{}", "[ ]", "{ }", "[1,]", "[,1]", "[1 2]", "[1,,2]", '{"a":1,}', '{"a"}', '{"a":}', "{a:1}", "{1:2}", "{'a':1}", '{"a" 1}', '{"a"::1}', '{"a":1 "b":2}', "nul", "nulll", "Null", "NULL", "True", "TRUE", "tru", "truefalse", "true false", "null null", "+1", "01", "-01", "00", ".5", "1.", "-", "--1", "1e", "1e+", "1.e5", "1.5.5", "0x10", "1_000", "Infinity", "NaN", "-Infinity", "1 2", "1,2",
        '"', '"a', 'a"', '"a"b', '"a" "b"', '"\\', '"\\"', '"\\x41"', '"\\u12"', '"\\u12g4"', '"\\ud800"', '"\\udc00"', '"\\ud800\\u0041"', '"\\ud83d\\ude00"', '"\\uD83D\\uDE00"', '"\\ud800\\ud800"', '"\\udc00\\ud800"', '"\\ud83dx"', '"\\u0000"', '"\\u0041"', '"\\u00e9"', '"\\\'"', '"\\a"', '"\\v"', '"\\0"', '"\\e"', '"a\nb"', '"a\tb"', '"a\rb"', '"\x01"', '"\x7f"', "'a'", "`a`", "// c\n1", "/* c */ 1", "# c\n1", "1 // c", "[1] // c",
        "\x0b1", "1\x0b", "[\x0c1]", "\x0c", "1\x0c", "\u30001", "[1]]", "[[1]", "{}}", "{{}}", "[{]}", '{"a":[}', '{"a":{"b":[1,{"c":null}]}}', '{"a":1,"a":2}', '{"a":1,"b":2,"a":{"c":3}}', '{"":{"":""}}', '{"\\u0061":1,"a":2}', '{"b":1,"a":2,"B":3,"A":4}', "[[[[[[[[[[]]]]]]]]]]", "[" * 512 + "]" * 512, "[" * 513 + "]" * 513, "[" * 511 + "{}" + "]" * 511, "[" * 512 + "{}" + "]" * 512, "[" * 512 + "1" + "]" * 512, "[" * 513 + "1" + "]" * 513, '{"a":' * 512 + "1" + "}" * 512, '{"a":' * 513 + "1" + "}" * 513,
        "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999999999999", "[1e5, 1E5, 1e05]", "[" + ", ".join(NUMS) + "]", "[" + ",".join(["1"] * 300) + "]", "{" + ",".join('"k%d":%d' % (i, i) for i in range(60)) + "}",
        '["a\\"b", "\\\\", "\\\\\\"", "\\/"]', '{"a b":{"c":[true,false,null]}}', '"' + "x" * 30 + '"', '"' + "x" * 31 + '"', '"' + "x" * 29 + 'é"', '"' + "é" * 15 + '"', '"' + "é" * 16 + '"', '["' + "y" * 1000 + '"]', '{"' + "k" * 33 + '":"' + "v" * 33 + '"}']


LONG = [a + "0" * 33000 + b for a, b in (("0.", ""), ("1", ""), ("-0.", ""), ("[-3", ""), ("[1,", "]"), ("0.0", "1"))]


def tkey(rng, simple=False):
    k = rng.random()
    if simple or k < 0.6:
        return rng.choice(["a", "b", "c", "d", "e-f", "g_h", "1", "10", "A", "-", "_x", "true", "inf"])
    if k < 0.8:
        return '"%s"' % rng.choice(["a", "b", "d e", "é", "x.y", "\\n", "\\\"", "中", "\\u00e9", "#", "=", "'", "[", "\\\\", "😀", "\\U0001F600"])
    return "'%s'" % rng.choice(["a", "b", "d e", "é", "x.y", "\\n", '"', "中", "#", "=", "\\", "{"])


TATOMS = ["1", "0", "-1", "+5", "1_000", "1_2_3", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "0x1F", "0xdead_BEEF", "0o17", "0b1010", "0b1_0", "0x7fffffffffffffff", "0x8000000000000000", "1.5", "-2.25", "+0.1", "3.14_15", "1e5", "1E-3", "6.5e+2", "1_0.5", "-0.0", "-0", "inf", "-inf", "+inf", "nan", "true", "false", "1e05", "5e-22", "1e22", "1e23", "0.0", "0e0", "123456789012345e-30",
          "1979-05-27", "07:32:00", "07:32:00.999999", "07:32:00.5", "07:32:00.500", "07:32:00.0", "00:00:00.1234567891", "1979-05-27T07:32:00", "1979-05-27 07:32:00", "1979-05-27t07:32:00z", "1979-05-27T07:32:00Z", "1979-05-27T00:32:00-07:00", "1979-05-27T00:32:00.999999+05:30", "2000-02-29", "0001-01-01", "9999-12-31T23:59:59Z", "1979-05-27T07:32:00-01:30",
          '""', '"a"', '"é中😀"', '"a\\nb"', '"\\t\\"\\\\"', '"\\u00e9\\U0001F600"', '"# no"', '"\\b\\f\\r"', '"tab\there"', "''", "'a'", "'\\n'", "'C:\\x'", "'é \"q\"'", '""""""', '"""a"""', '"""\na\nb"""', '"""\n\na"""', '"""a\\\n   b"""', '"""a\\\n\n  \t\n b\\\n"""', '"""a\\  \n b"""', '"""a"b""c"""', '""""a""""', '"""""a"""""', '"""\\"""\\""""', "''''''", "'''a'''", "'''\na\nb'''", "'''a\\nb'''", "'''a'b''c'''", "''''a''''", "'''''a'''''", '"""\\u0041"""', '"(exit 1)"', '"' + "x" * 200 + '"']


def tval(rng, depth, line=False):
    k = rng.random()
    gap = (lambda: "") if line else (lambda: rng.choice(["", "", "", " ", "\n", " # c\n", "\r\n", "\t"]))
    if depth > 0 and k < 0.25:
        xs = [tval(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
        return "[" + gap() + ",".join(gap() + x + gap() for x in xs) + (rng.choice(["", "", ",", ", "]) if xs else "") + gap() + "]"
    if depth > 0 and k < 0.45:
        pairs = [".".join(tkey(rng) for _ in range(rng.choice([1, 1, 1, 2]))) + rng.choice(["=", " = ", "= "]) + tval(rng, depth - 1, True) for _ in range(rng.choice([0, 1, 2, 3]))]
        return "{" + rng.choice(["", " "]) + rng.choice([",", ", "]).join(pairs) + rng.choice(["", " "]) + "}"
    return rng.choice(TATOMS)


def tdoc(rng):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        k = rng.random()
        if k < 0.25:
            out.append(rng.choice(["[%s]", "[%s]", "[ %s ]", "[[%s]]", "[[ %s ]]"]) % rng.choice([".", ".", " . "]).join(tkey(rng, rng.random() < 0.8) for _ in range(rng.choice([1, 1, 2, 3]))))
        elif k < 0.33:
            out.append(rng.choice(["", "  ", "# note", "#", "\t# é", "#[a]"]))
        else:
            out.append(rng.choice(["", "", "  "]) + rng.choice([".", ".", " . "]).join(tkey(rng, rng.random() < 0.7) for _ in range(rng.choice([1, 1, 1, 2, 3]))) + rng.choice(["=", " = ", "  =\t"]) + tval(rng, 2) + rng.choice(["", "", "", " ", " # c", "#c"]))
    return rng.choice(["\n", "\n", "\r\n"]).join(out) + rng.choice(["", "\n", "\r\n", "\n\n"])


TODD = ["", "\n", " ", "# c", "a=1", "a = 1\n", "a", "a=", "=1", "a=1 b=2", "a=1,", "a=tru", "a=True", "a=null", "a=nil", "a=[", "a=[1", "a=[1,", "a=]", "a=[,]", "a=[1,,2]", "a=[1 2]", "a=[]", "a=[[]]", "a=[1,'x']", "a=[1,2.0]", "a=[{},1]", "a=[{a=1},{b=2}]", "a={", "a={b=1", "a={b=1,}", "a={,}", "a={b}", "a={b=1 c=2}", "a={\nb=1}", "a={b=1\n}", "a={b=1, b=2}", "a={b=1,c={d=2}}", "a={b.c=1,b.d=2}", "a={b={c=1},b.d=2}", "a={b=[1,\n2]}",
        "[a]", "[a", "[a]]", "[[a]", "[[a] ]", "[]", "[[]]", "[a.]", "[.a]", "[a..b]", "[a]x=1", "[a] # c", "[a]\n[a]", "[a]\n[b]\n[a]", "[a.b]\n[a]", "[a]\n[a.b]", "[a.b]\n[a.c]\n[a]\nd=1", "[[a]]\n[[a]]", "[[a]]\n[a]", "[a]\n[[a]]", "[[a]]\n[a.b]\nc=1\n[[a]]\n[a.b]\nc=2", "[[a]]\n[[a.b]]\nx=1\n[[a.b]]\nx=2\n[[a]]\n[[a.b]]\nx=3", "[[a.b]]\n[a]", "[a.b]\n[[a.b]]", "a=[{}]\n[[a]]", "a=1\n[a]", "a=1\n[[a]]", "a=1\n[a.b]", "a={}\n[a.b]", "a.b=1\n[a]", "a=1\na=2", "a=1\n'a'=2", "a=1\n\"\\u0061\"=2", "a.b=1\na.c=2", "a.b=1\na.b=2", "a.b=1\na.b.c=2", "a=1\na.b=2", "a.b.c=1\na.b.d=2\na.e=3", "a.b.c=1\na.b=2", "[a]\nb=1\n[c]\nb=2", "[a]\nb.c=1\nb.d=2", "x=1\n[a.b]\ny=2\n[a.c.d]\nz=3\n[a]\nw=4",
        "a . b = 1", "a. 'b' .\"c\" = 1", "[ a . 'b' ]", "a b=1", "a.=1", ".a=1", "a..b=1", "1=2", "1.2=3", "-=1", "é=1", "\"é\"=1", "'x y'=1", "\"\"\"a\"\"\"=1", "'''a'''=1", "a$=1", "3.14='pi'", "true=1", "inf=2",
        "a=01", "a=00", "a=-01", "a=1_", "a=_1", "a=1__0", "a=+", "a=-", "a=--1", "a=1.", "a=.5", "a=1.e5", "a=1e", "a=1e+", "a=1.5.5", "a=1_.5", "a=1._5", "a=1e_5", "a=1e5_", "a=0X1", "a=0x", "a=0xg", "a=0x_1", "a=0x1_", "a=-0x1", "a=0o8", "a=0b2", "a=0B1", "a=-0b1", "a=1e1.5", "a=Inf", "a=NaN", "a=infinity", "a=++inf", "a=9223372036854775808", "a=-9223372036854775809", "a=0xffffffffffffffff",
        "a=\"", "a=\"b", "a='b", "a=\"\"\"b", "a=\"\"\"b\"\"", "a='''b''", "a=\"\\x\"", "a=\"\\e\"", "a=\"\\/\"", "a=\"\\u12\"", "a=\"\\u00g0\"", "a=\"\\ud800\"", "a=\"\\U00110000\"", "a=\"\\U0010FFFF\"", "a=\"\\UFFFFFFFF\"", "a=\"\\U0000\"", "a=\"x\ny\"", "a='x\ny'", "a=\"\x01\"", "a='\x01'", "a=\"\"\"\x01\"\"\"", "a=\"\x7f\"", "a='\x7f'", "a=\"\t\"", "a='\t'", "a=\"\"\"x\\  y\"\"\"", "a=\"\"\"x\\\"\"\"\"", "a=\"\"\"\"\"\"\"\"", "a=\"\"\"\"\"\"\"\"\"\"", "a=''''''''", "a=''''''''''", "a=\"\"\"a\r\nb\"\"\"", "a='''\r\na'''", "a=\"\"\"a\rb\"\"\"",
        "a=1\rb=2", "a=1\r\nb=2", "a=1\r", "# a\rb", "# \x01", "#\té", "a=1 # c\x01", "a=1#c", "a=1979-13-01", "a=1979-00-01", "a=1979-01-00", "a=1979-01-32", "a=1979-5-27", "a=79-05-27", "a=1979-05", "a=1979-05-27T", "a=1979-05-27T07", "a=1979-05-27T07:32", "a=07:32", "a=7:32:00", "a=07:60:00", "a=07:32:61", "a=25:00:00", "a=07:32:00.", "a=07:32:00Z", "a=07:32:00+01:00", "a=1979-05-27Z", "a=1979-05-27T07:32:00+1:00", "a=1979-05-27T07:32:00+01", "a=1979-05-27T07:32:00+0100", "a=1979-05-27_07:32:00", "a=1979-05-27  07:32:00", "a=1979-05-27 ", "a=1979-05-27 # c", "a=1979-05-27T07:32:00ZZ", "a=[1979-05-27, 07:32:00]", "a={b=1979-05-27}", "a=1979-05-27x",
        "a=" + "[" * 50 + "]" * 50, "\n".join("k%d=%d" % (i, i) for i in range(80)), "\n".join("[[x]]\ni=%d" % i for i in range(40)), "a=[" + ",".join(["1"] * 200) + "]", "a=\"" + "é" * 300 + "\"", "[b]\n[a]\n[B]\n[A]", "b=1\na=2\nB=3\nA=4"]
# Where the TOML library differs from TOML (known_findings.txt).
TFOUND = {"toml-empty-key": ['""=1', "''=1", 'a."".b=1', '[""]', '[a.""]\nb=1', 'a={""=1}'], "toml-subtable-of-dotted": ["[a]\nx.y=1\n[a.x.z]\nw=1", "x.y=1\n[x.z]\nw=1"], "toml-minus-zero-offset": ["a=1979-05-27T00:00:00-00:30", "a=1979-05-27T00:00:00-00:00"],
          "toml-leap-second": ["a=23:59:60", "a=1990-12-31T23:59:60Z"], "toml-plus-minus": ["a=+-1", "a=+-1.5", "a=+-inf"], "toml-signed-base": ["a=+0x1", "a=+0o7", "a=+0b1"], "toml-delete-in-comment": ["# \x7f", "a=1 # \x7f"], "toml-no-such-day": ["a=1979-02-30", "a=2001-02-29", "a=1979-04-31T00:00:00"], "toml-hour-24": ["a=24:00:00", "a=1979-05-27T24:00:00"],
          "toml-no-such-offset": ["a=1979-05-27T00:00:00+24:00", "a=1979-05-27T00:00:00+01:60"]}


def corrupt(rng, d, chars):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randint(0, len(d))
        k = rng.random()
        if k < 0.3:
            d = d[:i] + d[i + 1:]
        elif k < 0.6:
            d = d[:i] + rng.choice(chars) + d[i:]
        elif k < 0.8:
            d = d[:i] + rng.choice(chars) + d[i + 1:]
        elif k < 0.9:
            d = d[:i]
        else:
            j = rng.randint(0, len(d))
            d = d[:i] + d[j:]
    return d


JCHARS = list('[]{},:"\\/ \n\ttfnu0123456789eE+-.a') + ["null", "true", "1", '"a"', "{}", "[]", "\\u", "é", "\x0b"]
TCHARS = list("[]{},=.\"'\\# \n\tabtfx0123456789eE+-_:TZ") + ["\r\n", "\r", "[[", "]]", '"""', "'''", "true", "inf", "é", "a=1\n", "1979-05-27"]


def small(ctx, chars, n, k):
    every = ["".join(t) for m in range(1, n + 1) for t in itertools.product(chars, repeat=m)]
    return every if len(every) <= k else ctx.rng.sample(every, k)


def judge(ctx, kind, docs, what, **k):
    seen, out = set(), []
    for d in docs:
        if d not in seen and len(d) < 40000:
            seen.add(d)
            out.append(k.get("form", "parse@%s %s") % (kind, lit(d)))
    prog.judge(ctx, [prog.session(s, show=k.get("show", True), msg=True, each=True) for s in prog.packed(out, 25)], what, max_skip=k.get("max_skip", 0.1))


USES = ["let d = parse@json \"{\\\"a\\\": [1, {\\\"b\\\": null}], \\\"c\\\": \\\"x\\\"}\"", "d", "d@a", "d@a@0 + 1", "d@a@1@b", "d@c + \"y\"", "len d", "dict@keys d", "let t = parse@toml \"a = [1, 2]\\n[b]\\nc = 'x'\"", "t@a@0 + 1", "t@b@c", "fn@map (x -> x * 2) t@a", "t == (parse@toml \"b = {c = 'x'}\\na = [1, 2]\")", "parse@json d@c", "let e = parse@json \"[1, 2, 3]\"; e == [1.0, 2.0, 3.0]", "e", "parse@json (\"[\" + \"1\" + \"]\")", "parse@json", "parse@toml", "parse@json 1 2", "parse@toml \"a=1\" 2", "parse@json 5", "parse@json 2.5", "parse@json True", "parse@json None", "parse@json [1, 2]", "parse@json {a=1}", "parse@json 'x", "parse@toml 5", "parse@toml None", "parse@toml {a=1}", "parse@json (zz 1)", "parse@toml (1 // 0)", "parse@json { print \"once\"; \"[1]\" }",
        "err@try (parse@json \"[\") (e -> e)", "err@try (parse@toml \"[\") (e -> e@message)", "parse@json \"\\\"(print 1)\\\"\"", "eval (parse@json \"\\\"print\\\"\")", "parse@toml \"a = '(exit 1)'\"", "fn@map parse@json [\"1\", \"[]\", \"\\\"a\\\"\"]", "\"[1, 2]\" | parse@json", "\"a = 1\" | parse@toml", "for x in (parse@json \"[1, [2], \\\"c\\\"]\") { println x }", "parse@json (fs@read \"doc.json\")", "parse@toml (fs@read \"doc.toml\")", "parse@json (fs@read \"raw\")", "parse@json \"\"", "parse@toml \"\"", "if (parse@json \"true\") { 1 } else { 2 }", "if (parse@json \"0\") { 1 } else { 2 }"]
TREE = [[["doc.json"], ["file", ["str", "{\r\n\t\"a\": [1, 2.5, \"é\"]\r\n}\r\n"]]], [["doc.toml"], ["file", ["str", "# c\r\na = \"\"\"\r\nx\r\ny\"\"\"\r\n[b]\r\nc = 1\r\n"]]], [["raw"], ["file", ["bytes", [91, 255, 93]]]]]


def check(ctx):
    rng = ctx.rng
    ctx.model_check("DesignDoc", cfg=ctx.n("DesignDoc", "DesignDoc_deep"), what="reading a written document gives the value, and a part of it is none", at_least=100)
    prog.judge(ctx, [prog.session(USES, show=True, msg=True, tree=TREE)] + [prog.session(rng.sample(USES, 12), show=True, msg=True, tree=TREE) for _ in range(ctx.n(30, 600))], "documents in programs", max_skip=0.2)
    judge(ctx, "json", [d for d in JODD if len(d) < 500], "JSON: rules and limits")
    judge(ctx, "json", [d for d in JODD if len(d) >= 500], "JSON: long documents", form="len [(parse@%s %s)]")
    prog.judge(ctx, [prog.session(['parse@json (fs@read "long%d")' % i for i in range(len(LONG))], msg=True, each=True, tree=[[["long%d" % i], ["file", ["str", d]]] for i, d in enumerate(LONG)])], "JSON: very long numbers")
    judge(ctx, "json", NUMS + ["-" + n for n in NUMS if n[0] != "-"] + ["[%s, %s]" % (n, n) for n in NUMS], "JSON: numbers")
    judge(ctx, "json", small(ctx, list('[]{},:"\\1-0.e t') + ["null", '"a"', "\n"], 5 if ctx.thorough else 4, ctx.n(5000, 150000)), "JSON: short texts")
    docs = [jdoc(rng, rng.choice([0, 1, 2, 3, 4, 5]), i % 2) for i in range(ctx.n(1200, 30000))]
    docs = [d for d in docs if len(d) < 3000]
    judge(ctx, "json", docs, "JSON: nested documents", show=False)
    judge(ctx, "json", [corrupt(rng, rng.choice(docs)[:400], JCHARS) for _ in range(ctx.n(2500, 60000))], "JSON: corrupted documents", show=False)
    judge(ctx, "toml", TODD, "TOML: rules and limits")
    judge(ctx, "toml", ["a=" + "{b=" * 30 + "1" + "}" * 30, "a=" + "[{b=" * 20 + "1" + "}]" * 20, ".".join(["a"] * 40) + "=1", "[" + ".".join(["a"] * 40) + "]\nb=1"], "TOML: nested documents", form="len [(parse@%s %s)]")
    judge(ctx, "toml", ["a=" + x for x in TATOMS] + ["a = [%s, %s]" % (x, y) for x, y in zip(TATOMS, TATOMS[1:])] + ["a = {b = %s, c = %s}" % (x, y) for x, y in zip(TATOMS, TATOMS[1:])], "TOML: values")
    judge(ctx, "toml", small(ctx, list("[]{},=.\"'#a1 \n"), 5, ctx.n(4000, 150000)) + ["a=" + x for x in small(ctx, list("01_.e+-xb:T[]{}\"'"), 5, ctx.n(3000, 100000))], "TOML: short texts")
    docs = [tdoc(rng) for _ in range(ctx.n(2500, 60000))]
    judge(ctx, "toml", docs, "TOML: documents", show=False)
    judge(ctx, "toml", [corrupt(rng, rng.choice(docs)[:400], TCHARS) for _ in range(ctx.n(3000, 60000))], "TOML: corrupted documents", show=False)
    cases = []
    for key, ds in TFOUND.items():
        for c in prog.record(ctx, [prog.session(["parse@toml %s" % lit(d)], msg=True, each=True) for d in ds]):
            cases.append(dict(c, key=key))
    ctx.judge("TraceProg", cases, "TOML: where the library differs", env={"SMALL": "1", "STRICT": "1"}, max_skip=0.0, show=lambda c: {"progs": c["progs"]})
