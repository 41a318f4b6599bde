------------------------------ MODULE DuneDiag -----------------------------
(***************************************************************************)
(* How a rejected text is reported: the offending region is quoted with    *)
(* the rest of its line(s), highlighted, and numbered.                     *)
(***************************************************************************)
EXTENDS DuneParse

ESC == CharOfCode(27)
RED == ESC \o "[38;5;9m"
BOLD == ESC \o "[1m"
RESET == ESC \o "[m" \o ESC \o "[0m"
MaxWidth == 72

\* The lines of a text: pieces between newlines, a final empty piece not
\* counting, without a carriage return before the newline.
RECURSIVE LinesR(_, _, _)
LinesR(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET z == SkipTo(s, i, {NL})
             piece == SubSeq(s, i, z - 1)
             stripped == IF z <= Len(s) /\ piece # "" /\ Ch(piece, Len(piece)) = CR
                         THEN SubSeq(piece, 1, Len(piece) - 1) ELSE piece
         IN LinesR(s, z + 1, Append(acc, stripped))
Lines(s) == LinesR(s, 1, <<>>)

Count(s, C) == Cardinality({i \in 1..Len(s) : Ch(s, i) \in C})
LineNumber(s, a) == 1 + Count(SubSeq(s, 1, a - 1), {NL})
LineStart(s, a) == CHOOSE i \in 1..a : /\ i = 1 \/ Ch(s, i - 1) = NL
                                       /\ \A j \in i..(a - 1) : Ch(s, j) # NL
TakeChars(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
PadNum(n) == LET t == NatText(n) IN Spaces(5 - Len(t)) \o t

Quoted(s, a, z) ==
    LET region == SubSeq(s, a, z - 1)
        ls  == IF Lines(region) = <<>> THEN <<"">> ELSE Lines(region)
        n   == LineNumber(s, a)
        bef == SubSeq(s, LineStart(s, a), a - 1)
        rest == Lines(SubSeq(s, z, Len(s)))
        aft == IF EndsWith(region, NL) \/ rest = <<>> THEN "" ELSE rest[1]
        RECURSIVE More(_)
        More(i) == IF i > Len(ls) THEN ""
                   ELSE NL \o PadNum(n + i - 1) \o " | " \o RED \o TakeChars(ls[i], MaxWidth) \o RESET
                        \o More(i + 1)
        bar == "      |" \o NL
    IN IF Len(ls) = 1
       THEN bar \o PadNum(n) \o " | " \o TakeChars(bef, MaxWidth) \o RED \o ls[1] \o RESET
            \o TakeChars(aft, MaxWidth - Min2(Len(bef), MaxWidth)) \o NL \o bar
       ELSE bar \o PadNum(n) \o " | " \o TakeChars(bef \o RED \o ls[1], MaxWidth) \o RESET
            \o More(2) \o NL \o TakeChars(aft, Max2(0, MaxWidth - Len(ls[Len(ls)]))) \o RESET \o NL \o bar

Head1 == RED \o BOLD \o "syntax error" \o RESET \o ": "

\* Unicode white space at both ends removed.
WsAll == AsciiWs \cup {CharOfCode(11)} \cup Range(Uni.ws)
RECURSIVE TrimEndR(_, _)
TrimEndR(s, C) == IF s # "" /\ Ch(s, Len(s)) \in C THEN TrimEndR(SubSeq(s, 1, Len(s) - 1), C) ELSE s
TrimStartR(s, C) == SubSeq(s, SkipIn(s, 1, C), Len(s))
TrimText(s) == TrimEndR(TrimStartR(s, WsAll), WsAll)

\* A text as the debug notation shows it.
DebugMap == [c \in {p[1] : p \in Range(Uni.debug)} |-> (CHOOSE p \in Range(Uni.debug) : p[1] = c)[2]]
DebugChar(c) == IF c \in DOMAIN DebugMap THEN DebugMap[c] ELSE c
RECURSIVE DebugR(_, _)
DebugR(s, i) == IF i > Len(s) THEN "" ELSE DebugChar(Ch(s, i)) \o DebugR(s, i + 1)
DebugText(s) == DQ \o DebugR(s, 1) \o DQ

RECURSIVE RenderEsc(_, _, _), RenderDiags(_, _, _)
RenderEsc(s, spans, i) ==
    IF i > Len(spans) THEN ""
    ELSE LET a == spans[i][1] z == spans[i][2]
         IN Head1 \o "invalid string escape sequence `" \o TrimText(SubSeq(s, a, z - 1)) \o "`" \o NL
            \o Quoted(s, a, z) \o RenderEsc(s, spans, i + 1)
RenderDiag(s, d) ==
    CASE d[1] = "esc" -> RenderEsc(s, d[2], 1)
      [] d[1] = "num" -> LET sp == d[2][1] IN Head1 \o "invalid number `" \o SubSeq(s, sp[1], sp[2] - 1) \o "`" \o NL
                                              \o Quoted(s, sp[1], sp[2])
      [] d[1] = "chr" -> LET sp == d[2][1] IN Head1 \o "invalid token " \o DebugText(SubSeq(s, sp[1], sp[2] - 1)) \o NL
                                              \o Quoted(s, sp[1], sp[2])
RenderDiags(s, ds, i) == IF i > Len(ds) THEN "" ELSE RenderDiag(s, ds[i]) \o RenderDiags(s, ds, i + 1)

\* The report of a rejection e = Parse(s).
Render(s, e) ==
    IF "diags" \in DOMAIN e THEN RenderDiags(s, e.diags, 1)
    ELSE Head1 \o "expected " \o e.exp \o (IF e.found # "" THEN ", found " \o e.found ELSE "") \o NL
         \o Quoted(s, e.a, e.z) \o (IF e.hint # "" THEN "    hint: " \o e.hint \o NL ELSE "")
=============================================================================
