------------------------------ MODULE DunePaint -----------------------------
(***************************************************************************)
(* What a typed line looks like.  Want(s) is the colour of each character  *)
(* (the parameters of the terminal sequence which sets it; "" is the usual *)
(* colour, "*" any), and Shows(out, s) says that a terminal which gets out *)
(* shows the line s in these colours, and is back to the usual one after.  *)
(***************************************************************************)
EXTENDS DuneLex

Esc == CharOfCode(27)
Wrong == "38;5;9"
KindColour(k, t) ==
    CASE k \in {"bool", "kw"} -> "95"
      [] k = "op" -> "38;5;220"
      [] k = "punct" -> IF t \in {"'", "=", "->", "~>"} THEN "96" ELSE ""
      [] k = "str" -> "38;5;208"
      [] k = "com" -> "38;5;247"
      [] k = "sym" -> IF t \in {"echo", "exit", "clear", "cd", "rm"} THEN "94" ELSE ""
      [] OTHER -> ""
Blank(c) == c \in {" ", TAB, NL, CR}
Within(i, spans) == \E k \in 1..Len(spans) : spans[k][1] <= i /\ i < spans[k][2]
RECURSIVE WantFrom(_, _, _)
WantFrom(s, ts, k) ==
    IF k > Len(ts) THEN <<>>
    ELSE LET t == ts[k]
             usual == KindColour(t.k, TokText(s, t))
         IN [i \in 1..(t.z - t.a) |->
               IF t.k = "ws" \/ Blank(Ch(s, t.a + i - 1)) THEN "*"
               ELSE IF t.d # Valid /\ Within(t.a + i - 1, t.d[2]) THEN Wrong ELSE usual]
            \o WantFrom(s, ts, k + 1)
Want(s) == WantFrom(s, Lex(s), 1)

\* The place after the colour sequence at j, 0 if there is none.
CodeEnd(out, j) == IF ~HasAt(out, j, Esc \o "[") THEN 0
                   ELSE LET z == SkipIn(out, j + 2, Digits \cup {";"}) IN IF z <= Len(out) /\ Ch(out, z) = "m" THEN z + 1 ELSE 0
Set(p) == IF p \in {"", "0"} THEN "" ELSE p
\* The rest of the output from j on shows the rest of the line from i on, the colour being col.
\* An escape character may be one of the line's own.
RECURSIVE Rest(_, _, _, _, _, _)
Rest(out, s, want, i, j, col) ==
    IF j > Len(out) THEN i > Len(s) /\ col = ""
    ELSE LET e == CodeEnd(out, j) IN
         \/ e > 0 /\ Rest(out, s, want, i, e, Set(SubSeq(out, j + 2, e - 2)))
         \/ i <= Len(s) /\ Ch(out, j) = Ch(s, i) /\ want[i] \in {"*", col} /\ Rest(out, s, want, i + 1, j + 1, col)
Shows(out, s) == LET want == TLCEval(Want(s)) IN Rest(out, s, want, 1, 1, "")

\* One way of painting a line: a sequence wherever the colour changes.
RECURSIVE PaintFrom(_, _, _, _)
PaintFrom(s, want, i, col) ==
    IF i > Len(s) THEN IF col = "" THEN "" ELSE Esc \o "[0m"
    ELSE IF want[i] \in {"*", col} THEN Ch(s, i) \o PaintFrom(s, want, i + 1, col)
    ELSE Esc \o "[" \o (IF want[i] = "" THEN "0" ELSE want[i]) \o "m" \o Ch(s, i) \o PaintFrom(s, want, i + 1, want[i])
Paint(s) == PaintFrom(s, TLCEval(Want(s)), 1, "")
=============================================================================
