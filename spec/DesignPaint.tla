----------------------------- MODULE DesignPaint ----------------------------
(***************************************************************************)
(* A line is typed, character by character.  In every state the painted    *)
(* line shows what was typed and nothing else; taking the colour sequences *)
(* away gives the line; and what stands before the word being typed keeps  *)
(* its colours.                                                            *)
(***************************************************************************)
EXTENDS DunePaint
CONSTANT Longest
VARIABLES line, before
vars == <<line, before>>
Alphabet == {"t", "o", "c", "d", "=", ">", "-", "@", "1", ".", DQ, BS, " ", "#", NL, "\\u{4", "None", Esc, "é"}
Init == line = "" /\ before = ""
Next == Len(line) < Longest /\ before' = line /\ \E c \in Alphabet : line' = line \o c
Spec == Init /\ [][Next]_vars

RECURSIVE Bared(_, _)
Bared(t, i) == IF i > Len(t) THEN "" ELSE LET e == CodeEnd(t, i) IN IF e > 0 THEN Bared(t, e) ELSE Ch(t, i) \o Bared(t, i + 1)

Painted == Shows(Paint(line), line)
Bare == ~Contains(line, Esc) => Bared(Paint(line), 1) = line
NoOther == /\ ~Shows(Paint(line) \o "x", line)
           /\ line # "" => ~Shows(SubSeq(Paint(line), 1, Len(Paint(line)) - 1), line)
           /\ ~Shows(Paint(line) \o Esc \o "[95m", line)
           /\ Shows(Paint(line) \o Esc \o "[95m" \o Esc \o "[m", line)
Agrees == (Shows(line, line) <=> \A i \in 1..Len(line) : Want(line)[i] \in {"", "*"})
\* All words but the last are as they were.
Local == LET a == Lex(before)
             b == Lex(line)
         IN Len(a) > 0 => SubSeq(b, 1, Len(a) - 1) = SubSeq(a, 1, Len(a) - 1)
KeepsColours == LET a == Lex(before)
                    n == IF a = <<>> THEN 0 ELSE a[Len(a)].a - 1
                IN SubSeq(Want(line), 1, n) = SubSeq(Want(before), 1, n)
=============================================================================
