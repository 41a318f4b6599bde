------------------------------ MODULE DuneText ------------------------------
(***************************************************************************)
(* Characters and texts.  A text is a TLC string; the characters beyond    *)
(* ASCII that the drivers use, with their UTF-8 width and case mappings,   *)
(* come from uni.json (generated from the Unicode tables, see tools).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Uni == ndJsonDeserialize("uni.json")[1]

Range(f) == {f[i] : i \in DOMAIN f}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

CharSet(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}

Lower   == CharSet("abcdefghijklmnopqrstuvwxyz")
Upper   == CharSet("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Digits  == CharSet("0123456789")
Hex     == Digits \cup CharSet("abcdefABCDEF")
Alpha   == Lower \cup Upper
Alnum   == Alpha \cup Digits
NL == "\n"
CR == "\r"
FF == "\f"
TAB == "\t"
DQ == "\""
BS == "\\"
\* ASCII white space as Rust's is_ascii_whitespace has it (no vertical tab).
AsciiWs == {" ", TAB, NL, FF, CR}

\* Width in bytes of every non-ASCII character in use.
WideWidth == [c \in {p[1] : p \in Range(Uni.width)} |->
                (CHOOSE p \in Range(Uni.width) : p[1] = c)[2]]
Wide == DOMAIN WideWidth
Width(c) == IF c \in Wide THEN WideWidth[c] ELSE 1

\* The characters of a text, as a sequence of one-character strings.
Chars(s) == TLCEval([i \in 1..Len(s) |-> SubSeq(s, i, i)])
Ch(s, i) == SubSeq(s, i, i)

RECURSIVE ConcatR(_, _)
ConcatR(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o ConcatR(ss, i + 1)
\* The text made of a sequence of texts.
Concat(ss) == ConcatR(ss, 1)

RECURSIVE ByteLenR(_, _, _)
ByteLenR(s, i, acc) == IF i > Len(s) THEN acc
                       ELSE ByteLenR(s, i + 1, acc + Width(Ch(s, i)))
ByteLen(s) == ByteLenR(s, 1, 0)

\* Code points, for ordering texts (UTF-8 byte order is code point order).
CodeOf == [c \in {p[1] : p \in Range(Uni.order)} |->
             (CHOOSE p \in Range(Uni.order) : p[1] = c)[2]]
CharOfCode(n) == IF \E p \in Range(Uni.order) : p[2] = n
                 THEN (CHOOSE p \in Range(Uni.order) : p[2] = n)[1] ELSE "?"
NUL == CharOfCode(0)
RECURSIVE TextLessR(_, _, _)
TextLessR(a, b, i) ==
    IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
    ELSE IF Ch(a, i) = Ch(b, i) THEN TextLessR(a, b, i + 1)
    ELSE CodeOf[Ch(a, i)] < CodeOf[Ch(b, i)]
TextLess(a, b) == TextLessR(a, b, 1)

HasAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
StartsWith(s, w) == HasAt(s, 1, w)
EndsWith(s, w) == Len(w) <= Len(s) /\ SubSeq(s, Len(s) - Len(w) + 1, Len(s)) = w
Contains(s, w) == \E i \in 1..(Len(s) + 1) : HasAt(s, i, w)

\* The first index from i on whose character is not in the set C.
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, C) == IF i <= Len(s) /\ Ch(s, i) \in C THEN SkipIn(s, i + 1, C) ELSE i
\* The first index from i on whose character is in the set C (or Len + 1).
RECURSIVE SkipTo(_, _, _)
SkipTo(s, i, C) == IF i > Len(s) \/ Ch(s, i) \in C THEN i ELSE SkipTo(s, i + 1, C)
=============================================================================
