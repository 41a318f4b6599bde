------------------------------ MODULE DuneJson ------------------------------
(***************************************************************************)
(* Documents of other formats: JSON (RFC 8259) and TOML.  Json(t) and      *)
(* Toml(t) are <<"ok", value>>, <<"bad">> for a text that is no document,  *)
(* and <<"?">> where the specification does not decide.                    *)
(***************************************************************************)
EXTENDS DuneLib

\* -------------------------------------------------------------- numbers
RECURSIVE Zeros(_), DropZeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
DropZeros(d) == IF Len(d) > 0 /\ Ch(d, 1) = "0" THEN DropZeros(SubSeq(d, 2, Len(d))) ELSE d
RECURSIVE DropEnd(_)
DropEnd(d) == IF Len(d) > 0 /\ Ch(d, Len(d)) = "0" THEN DropEnd(SubSeq(d, 1, Len(d) - 1)) ELSE d
\* The float nearest to 0.D * 10^p, D being decimal digits, in the notation of the shell.
\* With at most 15 digits, and away from the ends of the range, it is the one which is written so.
Nearest(neg, D, p) ==
    LET d == DropEnd(DropZeros(D))
        q == p - (Len(D) - Len(DropZeros(D)))
        sg == IF neg THEN "-" ELSE ""
        n == Len(d)
    IN IF d = "" THEN IF neg THEN <<"fx", "-0.0">> ELSE <<"flt", 0>>
       ELSE IF q > 309 THEN <<"fx", sg \o "inf">>
       ELSE IF q < -323 THEN IF neg THEN <<"fx", "-0.0">> ELSE <<"flt", 0>>
       ELSE IF n > 15 \/ q > 308 \/ q < -306 THEN UnkFx
       ELSE IF q > -4 /\ q <= 16
            THEN FloatOfText(sg \o (IF q <= 0 THEN "0." \o Zeros(-q) \o d
                                    ELSE IF n <= q THEN d \o Zeros(q - n) \o ".0"
                                    ELSE SubSeq(d, 1, q) \o "." \o SubSeq(d, q + 1, n)))
       ELSE <<"fx", sg \o Ch(d, 1) \o (IF n > 1 THEN "." \o SubSeq(d, 2, n) ELSE "") \o "e"
                    \o (IF q - 1 < 0 THEN "-" \o NatText(1 - q) ELSE NatText(q - 1))>>
\* The exponent which digits (and a sign) denote, kept within what matters.
ExpOf(neg, ds) == LET d == DropZeros(ds)
                      n == IF Len(d) > 6 THEN 999999 ELSE IF d = "" THEN 0 ELSE NatOfDigits(d, 1, 0)
                  IN IF neg THEN -n ELSE n

\* ----------------------------------------------------------------- JSON
\* Parsers take the text and a place, and give <<"ok", value, next place>> or <<"bad">>.
NoDoc == <<"bad">>
JsonWs == {" ", TAB, NL, CR}
JsonDeepest == 512
HexOf == [c \in Hex |-> CHOOSE n \in 0..15 : Ch("0123456789abcdef", n + 1) = c \/ Ch("0123456789ABCDEF", n + 1) = c]
Code4(t, i) == IF i + 3 <= Len(t) /\ \A j \in i..(i + 3) : Ch(t, j) \in Hex
               THEN 4096 * HexOf[Ch(t, i)] + 256 * HexOf[Ch(t, i + 1)] + 16 * HexOf[Ch(t, i + 2)] + HexOf[Ch(t, i + 3)]
               ELSE -1
Simple == [c \in {DQ, BS, "/", "b", "f", "n", "r", "t"} |->
             CASE c = "b" -> CharOfCode(8) [] c = "f" -> FF [] c = "n" -> NL [] c = "r" -> CR [] c = "t" -> TAB [] OTHER -> c]
\* A character of which only the number is known.
Char(n) == IF \E p \in Range(Uni.order) : p[2] = n THEN CharOfCode(n) ELSE Unk
Control(c) == c \in DOMAIN CodeOf /\ CodeOf[c] < 32

RECURSIVE JsonText(_, _, _)
\* The rest of a string whose quote has been read.
JsonText(t, i, acc) ==
    IF i > Len(t) THEN NoDoc
    ELSE LET c == Ch(t, i) IN
    CASE c = DQ -> <<"ok", Str(acc), i + 1>>
      [] c = BS -> IF i = Len(t) THEN NoDoc
                   ELSE LET e == Ch(t, i + 1) IN
                        IF e \in DOMAIN Simple THEN JsonText(t, i + 2, acc \o Simple[e])
                        ELSE IF e # "u" THEN NoDoc
                        ELSE LET n == Code4(t, i + 2) IN
                             IF n < 0 \/ (n >= 56320 /\ n < 57344) THEN NoDoc
                             ELSE IF n < 55296 \/ n >= 57344 THEN JsonText(t, i + 6, acc \o Char(n))
                             ELSE LET m == IF HasAt(t, i + 6, BS \o "u") THEN Code4(t, i + 8) ELSE -1
                                  IN IF m < 56320 \/ m >= 57344 THEN NoDoc
                                     ELSE JsonText(t, i + 12, acc \o Char(65536 + 1024 * (n - 55296) + (m - 56320)))
      [] Control(c) -> NoDoc
      [] OTHER -> JsonText(t, i + 1, acc \o c)

\* Runs of digits this long are too much.
LongDigits(t, i) == \E k \in 0..3 : i + k + 32766 <= Len(t) /\ \A j \in (i + k)..(i + k + 32766) : Ch(t, j) \in Digits
JsonNumber(t, i) ==
    IF LongDigits(t, i) THEN NoDoc ELSE
    LET neg == Ch(t, i) = "-"
        a == IF neg THEN i + 1 ELSE i
        b == SkipIn(t, a, Digits)
        frac == b <= Len(t) /\ Ch(t, b) = "."
        c == IF frac THEN SkipIn(t, b + 1, Digits) ELSE b
        exp == c <= Len(t) /\ Ch(t, c) \in {"e", "E"}
        sgn == exp /\ c < Len(t) /\ Ch(t, c + 1) \in {"+", "-"}
        d == IF sgn THEN c + 2 ELSE c + 1
        e == IF exp THEN SkipIn(t, d, Digits) ELSE c
        ip == SubSeq(t, a, b - 1)
        fp == IF frac THEN SubSeq(t, b + 1, c - 1) ELSE ""
        x == IF exp THEN ExpOf(sgn /\ Ch(t, c + 1) = "-", SubSeq(t, d, e - 1)) ELSE 0
    IN IF ip = "" \/ (Len(ip) > 1 /\ Ch(ip, 1) = "0") \/ (frac /\ fp = "") \/ (exp /\ e = d) THEN NoDoc
       ELSE IF x > 30000 \/ x < -30000 THEN IF DropZeros(ip \o fp) = "" THEN <<"ok", Nearest(neg, "", 0), e>> ELSE IF Len(ip \o fp) < 300 THEN <<"ok", Nearest(neg, "1", x), e>> ELSE <<"?">>
       ELSE <<"ok", Nearest(neg, ip \o fp, Len(ip) + x), e>>

\* Pairs in the order of their keys, with one more or another value.
RECURSIVE PutPair(_, _, _)
PutPair(ps, k, v) == IF ps = <<>> THEN << <<k, v>> >>
                     ELSE IF ps[1][1] = k THEN << <<k, v>> >> \o Tail(ps)
                     ELSE IF TextLess(k, ps[1][1]) THEN << <<k, v>> >> \o ps
                     ELSE <<ps[1]>> \o PutPair(Tail(ps), k, v)
RECURSIVE JsonVal(_, _, _), JsonItems(_, _, _, _), JsonPairs(_, _, _, _)
\* A value at i; depth is the number of arrays and objects around it.
JsonVal(t, i0, depth) ==
    LET i == SkipIn(t, i0, JsonWs) IN
    IF i > Len(t) THEN NoDoc
    ELSE LET c == Ch(t, i)
             j == SkipIn(t, i + 1, JsonWs)
             end == IF j <= Len(t) THEN Ch(t, j) ELSE ""
         IN CASE c = "[" -> IF end = "]" THEN <<"ok", ListV(<<>>), j + 1>>
                            ELSE IF depth >= JsonDeepest THEN NoDoc ELSE JsonItems(t, j, depth + 1, <<>>)
              [] c = "{" -> IF end = "}" THEN <<"ok", MapV(<<>>), j + 1>>
                            ELSE IF depth >= JsonDeepest THEN NoDoc ELSE JsonPairs(t, j, depth + 1, <<>>)
              [] c = DQ -> JsonText(t, i + 1, "")
              [] c = "-" \/ c \in Digits -> JsonNumber(t, i)
              [] HasAt(t, i, "true") -> <<"ok", BoolV(TRUE), i + 4>>
              [] HasAt(t, i, "false") -> <<"ok", BoolV(FALSE), i + 5>>
              [] HasAt(t, i, "null") -> <<"ok", NoneV, i + 4>>
              [] OTHER -> NoDoc
JsonItems(t, i, depth, acc) ==
    LET r == JsonVal(t, i, depth) IN
    IF r[1] # "ok" THEN r
    ELSE LET j == SkipIn(t, r[3], JsonWs)
             c == IF j <= Len(t) THEN Ch(t, j) ELSE ""
         IN IF c = "]" THEN <<"ok", ListV(Append(acc, r[2])), j + 1>>
            ELSE IF c = "," THEN JsonItems(t, j + 1, depth, Append(acc, r[2]))
            ELSE NoDoc
\* Of pairs with the same key the last counts.
JsonPairs(t, i, depth, acc) ==
    LET k == SkipIn(t, i, JsonWs)
        key == IF k <= Len(t) /\ Ch(t, k) = DQ THEN JsonText(t, k + 1, "") ELSE NoDoc
    IN IF key[1] # "ok" THEN key
       ELSE LET l == SkipIn(t, key[3], JsonWs) IN
       IF l > Len(t) \/ Ch(t, l) # ":" THEN NoDoc
       ELSE LET r == JsonVal(t, l + 1, depth) IN
       IF r[1] # "ok" THEN r
       ELSE LET j == SkipIn(t, r[3], JsonWs)
                c == IF j <= Len(t) THEN Ch(t, j) ELSE ""
                m == PutPair(acc, key[2][2], r[2])
            IN IF c \in {"}", ","} /\ IsUnk(key[2][2]) THEN <<"?">>
               ELSE IF c = "}" THEN <<"ok", MapV(m), j + 1>>
               ELSE IF c = "," THEN JsonPairs(t, j + 1, depth, m)
               ELSE NoDoc
Json(t) == LET r == JsonVal(t, 1, 0)
           IN IF r[1] # "ok" THEN r
              ELSE IF SkipIn(t, r[3], JsonWs) <= Len(t) THEN NoDoc ELSE <<"ok", r[2]>>
=============================================================================
