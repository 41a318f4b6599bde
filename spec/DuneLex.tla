------------------------------ MODULE DuneLex -------------------------------
(***************************************************************************)
(* The lexical rules of Dune.  Lex(s) is the sequence of tokens            *)
(*    [k |-> kind, a |-> first index, z |-> index after the last,          *)
(*     d |-> diagnostic]                                                   *)
(* where a diagnostic is <<"ok">>, <<"esc", spans>>, <<"num", spans>> or   *)
(* <<"chr", spans>> and a span is <<first index, index after the last>>.   *)
(***************************************************************************)
EXTENDS DuneText

SymChars == Alnum \cup CharSet("_+-.~\\/?&<>$%#^:")

LongOps  == <<"to", "==", "!=", ">=", "<=", "&&", "||", "//", "<<", ">>", ">>>">>
Arrows   == <<"->", "~>">>
Keywords == <<"None", "then", "else", "let", "for", "if", "in">>
ShortOps == <<"<", ">", "+", "-", "*", "%", "|">>
Punct    == CharSet("()[]{}',;=")
Bools    == <<"True", "False">>

Valid == <<"ok">>

\* The word w stands at i and is not continued by a symbol character.
WordAt(s, i, w) == /\ HasAt(s, i, w)
                   /\ \/ i + Len(w) > Len(s)
                      \/ Ch(s, i + Len(w)) \notin SymChars

RECURSIVE FirstWord(_, _, _, _)
\* Length of the first word of ws from the k-th on standing at i, 0 if none.
FirstWord(s, i, ws, k) ==
    IF k > Len(ws) THEN 0
    ELSE IF WordAt(s, i, ws[k]) THEN Len(ws[k]) ELSE FirstWord(s, i, ws, k + 1)

Tok(k, a, z, d) == [k |-> k, a |-> a, z |-> z, d |-> d]

HexVal(c) == CASE c \in Digits -> (CHOOSE n \in 0..9 : Ch("0123456789", n + 1) = c)
               [] c \in Lower  -> 10 + (CHOOSE n \in 0..5 : Ch("abcdef", n + 1) = c)
               [] OTHER        -> 10 + (CHOOSE n \in 0..5 : Ch("ABCDEF", n + 1) = c)
RECURSIVE HexNum(_, _, _, _)
HexNum(s, i, z, acc) == IF i >= z THEN acc ELSE HexNum(s, i + 1, z, acc * 16 + HexVal(Ch(s, i)))
\* Scalar values: no surrogates (five hex digits never exceed U+10FFFF).
IsScalar(n) == n < 55296 \/ n > 57343

\* The escape that starts with the backslash at i: where it ends and, if it
\* is malformed, the offending span.
Escape(s, i) ==
    LET n == Len(s)
        bad2 == [z |-> Min2(i + 2, n + 1), bad |-> << <<i, Min2(i + 2, n + 1)>> >>]
    IN IF i + 1 <= n /\ Ch(s, i + 1) \in {DQ, BS, "b", "f", "n", "r", "t"}
       THEN [z |-> i + 2, bad |-> <<>>]
       ELSE IF ~HasAt(s, i + 1, "u{") THEN bad2
       ELSE LET h == i + 3
                z == Min2(SkipIn(s, h, Hex), h + 5)
            IN IF z = h THEN bad2
               ELSE IF ~IsScalar(HexNum(s, h, z, 0))
               THEN [z |-> z, bad |-> << <<h, z>> >>]
               ELSE IF z <= n /\ Ch(s, z) = "}"
               THEN [z |-> z + 1, bad |-> <<>>]
               ELSE [z |-> z, bad |-> << <<i, z>> >>]

\* The rest of a string literal, from i on: where it ends and its bad escapes.
RECURSIVE StringRest(_, _, _)
StringRest(s, i, bad) ==
    IF i > Len(s) THEN [z |-> i, bad |-> bad]
    ELSE IF Ch(s, i) = DQ THEN [z |-> i + 1, bad |-> bad]
    ELSE IF Ch(s, i) = BS
         THEN LET e == Escape(s, i) IN StringRest(s, e.z, bad \o e.bad)
         ELSE StringRest(s, i + 1, bad)

\* End of the integer part of a number starting at i (i if there is none).
IntPartEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) = "0" THEN i + 1 ELSE SkipIn(s, i, Digits)

NumberAt(s, i) ==
    LET j == IF Ch(s, i) = "-" THEN i + 1 ELSE i
        p == IntPartEnd(s, j)
    IN IF p = j THEN <<>>
       ELSE IF p > Len(s) \/ Ch(s, p) # "." THEN <<Tok("int", i, p, Valid)>>
       ELSE LET q == SkipIn(s, p + 1, Digits)
            IN <<Tok("flt", i, q, IF q = p + 1 THEN <<"num", << <<i, q>> >> >> ELSE Valid)>>

\* The token that starts at i.
LexAt(s, i) ==
    LET c  == Ch(s, i)
        lo == FirstWord(s, i, LongOps, 1)
        ar == FirstWord(s, i, Arrows, 1)
        kw == FirstWord(s, i, Keywords, 1)
        so == FirstWord(s, i, ShortOps, 1)
        bo == FirstWord(s, i, Bools, 1)
        nu == NumberAt(s, i)
    IN CASE lo > 0        -> Tok("op", i, i + lo, Valid)
         [] c \in Punct /\ lo = 0 -> Tok("punct", i, i + 1, Valid)
         [] OTHER ->
       IF ar > 0 THEN Tok("punct", i, i + ar, Valid)
       ELSE IF kw > 0 THEN Tok("kw", i, i + kw, Valid)
       ELSE IF so > 0 THEN Tok("op", i, i + so, Valid)
       ELSE IF c \in {"@", "!"} THEN Tok("op", i, i + 1, Valid)
       ELSE IF bo > 0 THEN Tok("bool", i, i + bo, Valid)
       ELSE IF c = "#" THEN Tok("com", i, SkipTo(s, i, {CR, NL}), Valid)
       ELSE IF c = DQ
            THEN LET r == StringRest(s, i + 1, <<>>)
                 IN Tok("str", i, r.z, IF r.bad = <<>> THEN Valid ELSE <<"esc", r.bad>>)
       ELSE IF nu # <<>> THEN nu[1]
       ELSE IF c \in SymChars THEN Tok("sym", i, SkipIn(s, i, SymChars), Valid)
       ELSE IF c \in AsciiWs THEN Tok("ws", i, SkipIn(s, i, AsciiWs), Valid)
       ELSE Tok("sym", i, i + 1, <<"chr", << <<i, i + 1>> >> >>)

RECURSIVE LexFrom(_, _, _)
LexFrom(s, i, acc) == IF i > Len(s) THEN acc
                      ELSE LET t == LexAt(s, i) IN LexFrom(s, t.z, Append(acc, t))
Lex(s) == LexFrom(s, 1, <<>>)

TokText(s, t) == SubSeq(s, t.a, t.z - 1)

(* The property of tokenization, stated on the result of Lex. *)
Lossless(s, ts) ==
    /\ \A i \in 1..Len(ts) : ts[i].a < ts[i].z
    /\ \A i \in 1..(Len(ts) - 1) : ts[i].z = ts[i + 1].a
    /\ IF s = "" THEN ts = <<>> ELSE ts[1].a = 1 /\ ts[Len(ts)].z = Len(s) + 1
DiagsInside(ts) ==
    \A i \in 1..Len(ts) : ts[i].d # Valid =>
        \A k \in 1..Len(ts[i].d[2]) : LET sp == ts[i].d[2][k]
                                      IN ts[i].a <= sp[1] /\ sp[1] < sp[2] /\ sp[2] <= ts[i].z

(* Projection to what the implementation reports: byte offsets. *)
RECURSIVE OffsetsR(_, _, _, _)
OffsetsR(s, i, o, acc) == IF i > Len(s) THEN Append(acc, o)
                          ELSE OffsetsR(s, i + 1, o + Width(Ch(s, i)), Append(acc, o))
\* Offsets(s)[i] is the byte offset of index i, for i in 1..Len(s)+1.
Offsets(s) == OffsetsR(s, 1, 0, <<>>)

ShowTokens(s, ts) ==
    LET off == Offsets(s)
    IN [i \in 1..Len(ts) |-> <<ts[i].k, off[ts[i].a], off[ts[i].z]>>]
ShowDiags(s, ts) ==
    LET off == Offsets(s)
    IN [i \in 1..Len(ts) |->
          IF ts[i].d = Valid THEN Valid
          ELSE <<ts[i].d[1], [k \in 1..Len(ts[i].d[2]) |->
                                <<off[ts[i].d[2][k][1]], off[ts[i].d[2][k][2]]>>]>>]
=============================================================================
