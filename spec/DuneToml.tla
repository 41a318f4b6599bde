------------------------------ MODULE DuneToml ------------------------------
(***************************************************************************)
(* TOML documents (version 1.0): Toml(t) is <<"ok", map>>, <<"bad">>, or   *)
(* <<"?">>.  Where the TOML library of the shell is known to differ from   *)
(* TOML (DESIGN.md, known_findings.txt) the answer is left open, unless    *)
(* the check asks for it with STRICT.                                      *)
(***************************************************************************)
EXTENDS DuneJson, IOUtils

Strict == "STRICT" \in DOMAIN IOEnv
Lax(r) == IF Strict THEN r ELSE <<"?">>

\* ---------------------------------------------------------------- lexis
TBlank == {" ", TAB}
DEL == CharOfCode(127)
Newline(t, i) == IF HasAt(t, i, NL) THEN 1 ELSE IF HasAt(t, i, CR \o NL) THEN 2 ELSE 0
Ctl(c) == c # TAB /\ (Control(c) \/ c = DEL)
Bare == Alnum \cup {"_", "-"}

\* The end of a comment: the place of its line's end; 0: it has a control character.
RECURSIVE CommentEnd(_, _)
CommentEnd(t, i) == IF i > Len(t) \/ Newline(t, i) > 0 THEN i
                    ELSE IF Control(Ch(t, i)) /\ Ch(t, i) # TAB THEN 0 ELSE CommentEnd(t, i + 1)
RECURSIVE HasDel(_, _)
HasDel(t, i) == IF i > Len(t) \/ Newline(t, i) > 0 THEN FALSE ELSE Ch(t, i) = DEL \/ HasDel(t, i + 1)

\* A step over a line's end: <<"ok", next place>> after blanks and perhaps a comment.
LineEnd(t, i0) ==
    LET i == SkipIn(t, i0, TBlank) IN
    IF i > Len(t) THEN <<"ok", i>>
    ELSE IF Newline(t, i) > 0 THEN <<"ok", i + Newline(t, i)>>
    ELSE IF Ch(t, i) # "#" THEN NoDoc
    ELSE LET e == CommentEnd(t, i + 1) IN
         IF e = 0 THEN NoDoc ELSE IF HasDel(t, i + 1) THEN Lax(NoDoc) ELSE <<"ok", e + Newline(t, e)>>
\* Over blanks, line ends and comments between the items of an array.
RECURSIVE Gap(_, _)
Gap(t, i) == IF i > Len(t) THEN <<"ok", i>>
             ELSE IF Ch(t, i) \in TBlank THEN Gap(t, i + 1)
             ELSE IF Newline(t, i) > 0 THEN Gap(t, i + Newline(t, i))
             ELSE IF Ch(t, i) = "#" THEN LET r == LineEnd(t, i) IN IF r[1] = "ok" THEN Gap(t, r[2]) ELSE r
             ELSE <<"ok", i>>

\* -------------------------------------------------------------- strings
HexAll(t, i, n) == i + n - 1 <= Len(t) /\ \A j \in i..(i + n - 1) : Ch(t, j) \in Hex
RECURSIVE THexNum(_, _, _, _)
THexNum(t, i, n, acc) == IF n = 0 THEN acc ELSE THexNum(t, i + 1, n - 1, 16 * acc + HexOf[Ch(t, i)])
\* An escape whose backslash is at i: <<"ok", text, next>>.
TEscape(t, i) ==
    IF i = Len(t) THEN NoDoc
    ELSE LET c == Ch(t, i + 1) IN
         CASE c \in DOMAIN Simple \ {"/"} -> <<"ok", Simple[c], i + 2>>
           [] c \in {"u", "U"} ->
                LET n == IF c = "u" THEN 4 ELSE 8 IN
                IF ~HexAll(t, i + 2, n) THEN NoDoc
                ELSE IF n = 8 /\ ~(HasAt(t, i + 2, "000") \/ HasAt(t, i + 2, "0010")) THEN NoDoc
                ELSE LET v == THexNum(t, i + 2, n, 0) IN
                     IF (v >= 55296 /\ v < 57344) \/ v > 1114111 THEN NoDoc ELSE <<"ok", Char(v), i + 2 + n>>
           [] OTHER -> NoDoc
RECURSIVE TBasic(_, _, _), TLiteral(_, _, _), BasicMl(_, _, _), LiteralMl(_, _, _), OverGap(_, _), TRun(_, _, _)
TBasic(t, i, acc) ==
    IF i > Len(t) THEN NoDoc
    ELSE LET c == Ch(t, i) IN
         IF c = DQ THEN <<"ok", acc, i + 1>>
         ELSE IF c = BS THEN LET e == TEscape(t, i) IN IF e[1] = "ok" THEN TBasic(t, e[3], acc \o e[2]) ELSE e
         ELSE IF Ctl(c) THEN NoDoc ELSE TBasic(t, i + 1, acc \o c)
TLiteral(t, i, acc) ==
    IF i > Len(t) THEN NoDoc
    ELSE LET c == Ch(t, i) IN
         IF c = "'" THEN <<"ok", acc, i + 1>> ELSE IF Ctl(c) THEN NoDoc ELSE TLiteral(t, i + 1, acc \o c)
\* White space and line ends after a backslash at the end of a line.
OverGap(t, i) == IF i <= Len(t) /\ (Ch(t, i) \in TBlank \/ Newline(t, i) > 0) THEN OverGap(t, i + Max2(1, Newline(t, i))) ELSE i
TRun(t, i, c) == IF i <= Len(t) /\ Ch(t, i) = c THEN 1 + TRun(t, i + 1, c) ELSE 0
\* At quotes in a text of several lines: up to two belong to the text before the three which end it.
TClose(t, i, c, acc) == LET n == TRun(t, i, c)
                           k == Min2(n, 5) - 3
                       IN <<"ok", acc \o (IF k = 2 THEN c \o c ELSE IF k = 1 THEN c ELSE ""), i + 3 + k>>
BasicMl(t, i, acc) ==
    IF i > Len(t) THEN NoDoc
    ELSE LET c == Ch(t, i) IN
         IF c = DQ THEN IF TRun(t, i, DQ) >= 3 THEN TClose(t, i, DQ, acc) ELSE BasicMl(t, i + 1, acc \o c)
         ELSE IF Newline(t, i) > 0 THEN BasicMl(t, i + Newline(t, i), acc \o NL)
         ELSE IF c = BS
              THEN LET j == SkipIn(t, i + 1, TBlank) IN
                   IF Newline(t, j) > 0 THEN BasicMl(t, OverGap(t, j), acc)
                   ELSE LET e == TEscape(t, i) IN IF e[1] = "ok" THEN BasicMl(t, e[3], acc \o e[2]) ELSE e
         ELSE IF Ctl(c) THEN NoDoc ELSE BasicMl(t, i + 1, acc \o c)
LiteralMl(t, i, acc) ==
    IF i > Len(t) THEN NoDoc
    ELSE LET c == Ch(t, i) IN
         IF c = "'" THEN IF TRun(t, i, "'") >= 3 THEN TClose(t, i, "'", acc) ELSE LiteralMl(t, i + 1, acc \o c)
         ELSE IF Newline(t, i) > 0 THEN LiteralMl(t, i + Newline(t, i), acc \o NL)
         ELSE IF Ctl(c) THEN NoDoc ELSE LiteralMl(t, i + 1, acc \o c)
\* Any text at a quote.
TextAt(t, i) ==
    IF HasAt(t, i, DQ \o DQ \o DQ) THEN BasicMl(t, i + 3 + Newline(t, i + 3), "")
    ELSE IF HasAt(t, i, "'''") THEN LiteralMl(t, i + 3 + Newline(t, i + 3), "")
    ELSE IF Ch(t, i) = DQ THEN TBasic(t, i + 1, "") ELSE TLiteral(t, i + 1, "")

\* ------------------------------------------------------ numbers and dates
\* Digits of C with single underscores between them.
Underscored(s, C) == /\ s # "" /\ Ch(s, 1) \in C /\ Ch(s, Len(s)) \in C
                     /\ \A i \in 1..Len(s) : Ch(s, i) \in C \cup {"_"} /\ (Ch(s, i) = "_" => Ch(s, i + 1) # "_")
RECURSIVE TPlain(_), InBase(_, _, _, _)
TPlain(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "_" THEN "" ELSE Ch(s, 1)) \o TPlain(SubSeq(s, 2, Len(s)))
InBase(s, i, b, acc) == IF i > Len(s) THEN acc ELSE InBase(s, i + 1, b, IAdd(IMul(acc, IntV(b)), IntV(HexOf[Ch(s, i)])))
Whole(n) == IF InRange(n) THEN <<"ok", n>> ELSE NoDoc
Decimal(s) == Underscored(s, Digits) /\ (Len(s) > 1 => Ch(s, 1) # "0")
\* The value a whole word denotes.
TNumber(w) ==
    LET sg == w # "" /\ Ch(w, 1) \in {"+", "-"}
        neg == w # "" /\ Ch(w, 1) = "-"
        u == IF sg THEN SubSeq(w, 2, Len(w)) ELSE w
        based(b, C) == LET ds == SubSeq(u, 3, Len(u))
                       IN IF ~Underscored(ds, C) THEN NoDoc
                          ELSE IF sg THEN IF neg THEN NoDoc ELSE Lax(NoDoc)
                          ELSE Whole(InBase(TPlain(ds), 1, b, IntV(0)))
        dot == SkipTo(u, 1, {"."})
        e == SkipTo(u, 1, {"e", "E"})
        ip == SubSeq(u, 1, Min2(dot, e) - 1)
        fp == IF dot < e THEN SubSeq(u, dot + 1, e - 1) ELSE ""
        xs == SubSeq(u, e + 1, Len(u))
        xsg == xs # "" /\ Ch(xs, 1) \in {"+", "-"}
        xd == IF xsg THEN SubSeq(xs, 2, Len(xs)) ELSE xs
    IN CASE StartsWith(w, "+-") -> Lax(NoDoc)
         [] StartsWith(u, "0x") -> based(16, Hex)
         [] StartsWith(u, "0o") -> based(8, CharSet("01234567"))
         [] StartsWith(u, "0b") -> based(2, {"0", "1"})
         [] u = "inf" -> <<"ok", <<"fx", IF neg THEN "-inf" ELSE "inf">>>>
         [] u = "nan" -> <<"ok", <<"fx", "NaN">>>>
         [] Decimal(u) -> LET n == IntOfText(TPlain(u)) IN Whole(IF neg THEN INeg(n) ELSE n)
         [] OTHER -> IF dot > Len(u) /\ e > Len(u) THEN NoDoc
                     ELSE IF dot > e /\ dot <= Len(u) THEN NoDoc
                     ELSE IF ~Decimal(ip) \/ (dot < e /\ ~Underscored(fp, Digits)) \/ (e <= Len(u) /\ ~Underscored(xd, Digits)) THEN NoDoc
                     ELSE LET x == IF e > Len(u) THEN 0 ELSE ExpOf(xsg /\ Ch(xs, 1) = "-", TPlain(xd))
                          IN IF x > 250 \/ x < -250 \/ Len(u) > 50 THEN <<"?">>
                             ELSE <<"ok", Nearest(neg, TPlain(ip) \o TPlain(fp), Len(TPlain(ip)) + x)>>

TNum(t, i, n) == IF i + n - 1 <= Len(t) /\ \A j \in i..(i + n - 1) : Ch(t, j) \in Digits THEN NatOfDigits(SubSeq(t, i, i + n - 1), 1, 0) ELSE -1
DaysIn(y, m) == IF m = 2 THEN IF y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0) THEN 29 ELSE 28
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* A date at i: <<"ok", next>> or not.
DateAt(t, i) ==
    LET y == TNum(t, i, 4)
        m == TNum(t, i + 5, 2)
        d == TNum(t, i + 8, 2)
    IN IF y < 0 \/ ~HasAt(t, i + 4, "-") \/ m < 1 \/ m > 12 \/ ~HasAt(t, i + 7, "-") \/ d < 1 \/ d > 31 THEN NoDoc
       ELSE IF d > DaysIn(y, m) THEN Lax(NoDoc) ELSE <<"ok", i + 10>>
\* A time at i: <<"ok", its text, next>>.
TimeAt(t, i) ==
    LET h == TNum(t, i, 2)
        m == TNum(t, i + 3, 2)
        s == TNum(t, i + 6, 2)
        j == IF HasAt(t, i + 8, ".") THEN SkipIn(t, i + 9, Digits) ELSE i + 8
        f == DropEnd(SubSeq(t, i + 9, Min2(j - 1, i + 17)))
    IN IF h < 0 \/ m < 0 \/ s < 0 \/ h > 24 \/ m > 59 \/ s > 60 \/ ~HasAt(t, i + 2, ":") \/ ~HasAt(t, i + 5, ":") \/ j = i + 9 THEN NoDoc
       ELSE IF h = 24 THEN Lax(NoDoc)
       ELSE LET r == <<"ok", SubSeq(t, i, i + 7) \o (IF f = "" THEN "" ELSE "." \o f), j>>
            IN IF s = 60 THEN Lax(r) ELSE r
\* An offset at i, if there is one: <<"ok", its text, next>>.
OffsetAt(t, i) ==
    IF i <= Len(t) /\ Ch(t, i) \in {"Z", "z"} THEN <<"ok", "Z", i + 1>>
    ELSE IF i > Len(t) \/ Ch(t, i) \notin {"+", "-"} THEN <<"ok", "", i>>
    ELSE LET h == TNum(t, i + 1, 2)
             m == TNum(t, i + 4, 2)
             r == <<"ok", SubSeq(t, i, i + 5), i + 6>>
         IN IF h < 0 \/ m < 0 \/ ~HasAt(t, i + 3, ":") THEN NoDoc
            ELSE IF h > 23 \/ m > 59 THEN Lax(NoDoc)
            ELSE IF h = 0 /\ Ch(t, i) = "-" THEN Lax(r) ELSE r
IsDate(t, i) == TNum(t, i, 4) >= 0 /\ HasAt(t, i + 4, "-")
IsTime(t, i) == TNum(t, i, 2) >= 0 /\ HasAt(t, i + 2, ":")
When(t, i) ==
    IF IsTime(t, i) THEN LET r == TimeAt(t, i) IN IF r[1] = "ok" THEN <<"ok", Str(r[2]), r[3]>> ELSE r
    ELSE LET d == DateAt(t, i) IN
         IF d[1] # "ok" THEN d
         ELSE IF d[2] <= Len(t) /\ (Ch(t, d[2]) \in {"T", "t"} \/ (Ch(t, d[2]) = " " /\ d[2] < Len(t) /\ Ch(t, d[2] + 1) \in Digits))
              THEN LET m == TimeAt(t, d[2] + 1) IN
                   IF m[1] # "ok" THEN m
                   ELSE LET o == OffsetAt(t, m[3]) IN
                        IF o[1] # "ok" THEN o
                        ELSE <<"ok", Str(SubSeq(t, i, i + 9) \o "T" \o m[2] \o o[2]), o[3]>>
              ELSE <<"ok", Str(SubSeq(t, i, i + 9)), d[2]>>
TWord == Alnum \cup {"_", "+", "-", ".", ":"}
\* What stands where a number, a date or a name may stand: the whole word has to be it.
Atom(t, i) ==
    IF IsDate(t, i) \/ IsTime(t, i)
    THEN LET r == When(t, i) IN IF r[1] = "ok" /\ r[3] <= Len(t) /\ Ch(t, r[3]) \in TWord THEN NoDoc ELSE r
    ELSE LET j == SkipIn(t, i, TWord)
             w == SubSeq(t, i, j - 1)
         IN IF w = "true" THEN <<"ok", BoolV(TRUE), j>>
            ELSE IF w = "false" THEN <<"ok", BoolV(FALSE), j>>
            ELSE LET n == TNumber(w) IN IF n[1] = "ok" THEN <<"ok", n[2], j>> ELSE n

\* ---------------------------------------------------------------- tables
\* A table is <<"tab", how it came about, pairs>>, an array of tables <<"aot", tables>>,
\* anything else <<"val", value>>.
Tab(how, ps) == <<"tab", how, ps>>
RECURSIVE TFind(_, _), TPlain0(_)
TFind(ps, k) == IF ps = <<>> THEN <<"none">> ELSE IF ps[1][1] = k THEN ps[1][2] ELSE TFind(Tail(ps), k)
TPlain0(n) == CASE n[1] = "val" -> n[2]
               [] n[1] = "aot" -> ListV(TLCEval([i \in 1..Len(n[2]) |-> TPlain0(n[2][i])]))
               [] OTHER -> MapV(TLCEval([i \in 1..Len(n[3]) |-> <<n[3][i][1], TPlain0(n[3][i][2])>>]))
Got(n) == <<"ok", n>>
\* The table with a value at a dotted key.
RECURSIVE PutAt(_, _, _)
PutAt(n, ks, v) ==
    LET k == ks[1]
        x == TFind(n[3], k)
        with(y) == Got(Tab(n[2], PutPair(n[3], k, y)))
    IN IF Len(ks) = 1 THEN IF x[1] = "none" THEN with(<<"val", v>>) ELSE NoDoc
       ELSE IF x[1] = "none" THEN LET r == PutAt(Tab("dotted", <<>>), Tail(ks), v) IN IF r[1] = "ok" THEN with(r[2]) ELSE r
       ELSE IF x[1] # "tab" THEN NoDoc
       ELSE IF x[2] = "dotted" THEN LET r == PutAt(x, Tail(ks), v) IN IF r[1] = "ok" THEN with(r[2]) ELSE r
       ELSE IF x[2] = "implicit" THEN <<"?">> ELSE NoDoc
\* The table with the table (or the next table of an array) of a header.
RECURSIVE THead0(_, _, _), InTable(_, _, _)
THead0(n, ks, array) ==
    LET k == ks[1]
        x == TFind(n[3], k)
        with(y) == Got(Tab(n[2], PutPair(n[3], k, y)))
        into(y) == LET r == THead0(y, Tail(ks), array) IN IF r[1] = "ok" THEN with(r[2]) ELSE r
    IN IF Len(ks) > 1
       THEN CASE x[1] = "none" -> into(Tab("implicit", <<>>))
              [] x[1] = "aot" -> LET l == Len(x[2])
                                     r == THead0(x[2][l], Tail(ks), array)
                                 IN IF r[1] = "ok" THEN with(<<"aot", [x[2] EXCEPT ![l] = r[2]]>>) ELSE r
              [] x[1] = "tab" -> IF x[2] = "dotted"
                                 THEN LET r == into(x) IN IF r[1] = "ok" THEN Lax(r) ELSE r
                                 ELSE into(x)
              [] OTHER -> NoDoc
       ELSE IF array
       THEN CASE x[1] = "none" -> with(<<"aot", <<Tab("header", <<>>)>>>>)
              [] x[1] = "aot" -> with(<<"aot", Append(x[2], Tab("header", <<>>))>>)
              [] OTHER -> NoDoc
       ELSE CASE x[1] = "none" -> with(Tab("header", <<>>))
              [] x[1] = "tab" /\ x[2] = "implicit" -> with(Tab("header", x[3]))
              [] OTHER -> NoDoc
\* The table with a value put into the table the last header named.
InTable(n, ks, kv) ==
    IF ks = <<>> THEN PutAt(n, kv[1], kv[2])
    ELSE LET x == TFind(n[3], ks[1])
             with(y) == Got(Tab(n[2], PutPair(n[3], ks[1], y)))
         IN IF x[1] = "aot"
            THEN LET l == Len(x[2])
                     r == InTable(x[2][l], Tail(ks), kv)
                 IN IF r[1] = "ok" THEN with(<<"aot", [x[2] EXCEPT ![l] = r[2]]>>) ELSE r
            ELSE LET r == InTable(x, Tail(ks), kv) IN IF r[1] = "ok" THEN with(r[2]) ELSE r

\* ---------------------------------------------------------------- syntax
RECURSIVE TKeys(_, _, _)
\* A dotted key: <<"ok", its parts, next>>.
TKeys(t, i0, acc) ==
    LET i == SkipIn(t, i0, TBlank)
        j == SkipIn(t, i, Bare)
        r == IF i > Len(t) THEN NoDoc
             ELSE IF Ch(t, i) \in {DQ, "'"}
                  THEN IF HasAt(t, i, DQ \o DQ \o DQ) \/ HasAt(t, i, "'''") THEN NoDoc ELSE TextAt(t, i)
             ELSE IF j = i THEN NoDoc ELSE <<"ok", SubSeq(t, i, j - 1), j>>
    IN IF r[1] # "ok" THEN r
       ELSE IF IsUnk(r[2]) THEN <<"?">>
       ELSE LET k == SkipIn(t, r[3], TBlank)
                ks == Append(acc, r[2])
            IN IF r[2] = "" /\ ~Strict THEN <<"?">>
               ELSE IF k <= Len(t) /\ Ch(t, k) = "." THEN TKeys(t, k + 1, ks) ELSE <<"ok", ks, k>>
RECURSIVE Val(_, _), TItems(_, _, _), Inline(_, _, _), Pair(_, _)
Val(t, i0) ==
    LET i == SkipIn(t, i0, TBlank) IN
    IF i > Len(t) THEN NoDoc
    ELSE CASE Ch(t, i) \in {DQ, "'"} -> LET r == TextAt(t, i) IN IF r[1] = "ok" THEN <<"ok", Str(r[2]), r[3]>> ELSE r
           [] Ch(t, i) = "[" -> TItems(t, i + 1, <<>>)
           [] Ch(t, i) = "{" -> LET j == SkipIn(t, i + 1, TBlank)
                                IN IF j <= Len(t) /\ Ch(t, j) = "}" THEN <<"ok", MapV(<<>>), j + 1>> ELSE Inline(t, i + 1, Tab("dotted", <<>>))
           [] OTHER -> Atom(t, i)
TItems(t, i, acc) ==
    LET g == Gap(t, i) IN
    IF g[1] # "ok" THEN g
    ELSE IF g[2] > Len(t) THEN NoDoc
    ELSE IF Ch(t, g[2]) = "]" THEN <<"ok", ListV(acc), g[2] + 1>>
    ELSE LET r == Val(t, g[2]) IN
         IF r[1] # "ok" THEN r
         ELSE LET h == Gap(t, r[3]) IN
              IF h[1] # "ok" THEN h
              ELSE IF h[2] > Len(t) THEN NoDoc
              ELSE IF Ch(t, h[2]) = "," THEN TItems(t, h[2] + 1, Append(acc, r[2]))
              ELSE IF Ch(t, h[2]) = "]" THEN <<"ok", ListV(Append(acc, r[2])), h[2] + 1>>
              ELSE NoDoc
\* key = value: <<"ok", <<parts, value>>, next>>
Pair(t, i) ==
    LET k == TKeys(t, i, <<>>) IN
    IF k[1] # "ok" THEN k
    ELSE IF k[3] > Len(t) \/ Ch(t, k[3]) # "=" THEN NoDoc
    ELSE LET r == Val(t, k[3] + 1) IN IF r[1] = "ok" THEN <<"ok", <<k[2], r[2]>>, r[3]>> ELSE r
Inline(t, i, n) ==
    LET p == Pair(t, i) IN
    IF p[1] # "ok" THEN p
    ELSE LET m == PutAt(n, p[2][1], p[2][2])
             j == SkipIn(t, p[3], TBlank)
         IN IF m[1] # "ok" THEN m
            ELSE IF j > Len(t) THEN NoDoc
            ELSE IF Ch(t, j) = "," THEN Inline(t, j + 1, m[2])
            ELSE IF Ch(t, j) = "}" THEN <<"ok", TPlain0(m[2]), j + 1>>
            ELSE NoDoc
\* The lines from i on; ks names the table they are in.
RECURSIVE TLines(_, _, _, _)
TLines(t, i0, root, ks) ==
    LET i == SkipIn(t, i0, TBlank) IN
    IF i > Len(t) THEN <<"ok", TPlain0(root)>>
    ELSE IF Newline(t, i) > 0 THEN TLines(t, i + Newline(t, i), root, ks)
    ELSE IF Ch(t, i) = "#" THEN LET e == LineEnd(t, i) IN IF e[1] = "ok" THEN TLines(t, e[2], root, ks) ELSE e
    ELSE IF Ch(t, i) = "["
    THEN LET array == HasAt(t, i, "[[")
             k == TKeys(t, IF array THEN i + 2 ELSE i + 1, <<>>)
         IN IF k[1] # "ok" THEN k
            ELSE IF ~HasAt(t, k[3], IF array THEN "]]" ELSE "]") THEN NoDoc
            ELSE LET e == LineEnd(t, IF array THEN k[3] + 2 ELSE k[3] + 1) IN
                 IF e[1] # "ok" THEN e
                 ELSE LET n == THead0(root, k[2], array) IN
                      IF n[1] # "ok" THEN n ELSE TLines(t, e[2], n[2], k[2])
    ELSE LET p == Pair(t, i) IN
         IF p[1] # "ok" THEN p
         ELSE LET e == LineEnd(t, p[3]) IN
              IF e[1] # "ok" THEN e
              ELSE LET n == InTable(root, ks, p[2]) IN
                   IF n[1] # "ok" THEN n ELSE TLines(t, e[2], n[2], ks)
Toml(t) == TLines(t, 1, Tab("header", <<>>), <<>>)
=============================================================================
