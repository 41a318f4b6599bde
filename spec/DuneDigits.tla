---------------------------- MODULE DuneDigits -----------------------------
(* Decimal notation of integers and dyadic floats.                         *)
EXTENDS DuneText, DuneInt64

DigitOf == [c \in Digits |-> CHOOSE n \in 0..9 : Ch("0123456789", n + 1) = c]
RECURSIVE MOfDigitsR(_, _, _)
MOfDigitsR(s, i, acc) == IF i > Len(s) THEN acc
                         ELSE MOfDigitsR(s, i + 1, MAdd(MMul1(acc, 10), MOfNat(DigitOf[Ch(s, i)])))
MOfDigits(s) == MOfDigitsR(s, 1, <<>>)
\* The number a decimal literal (optional minus, digits) denotes.
IntOfText(s) == IF Ch(s, 1) = "-" THEN Norm(-1, MOfDigits(SubSeq(s, 2, Len(s))))
                ELSE Norm(1, MOfDigits(s))

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN Ch("0123456789", n + 1)
              ELSE NatText(n \div 10) \o Ch("0123456789", (n % 10) + 1)
Pad4(n) == IF n < 10 THEN "000" \o NatText(n) ELSE IF n < 100 THEN "00" \o NatText(n)
           ELSE IF n < 1000 THEN "0" \o NatText(n) ELSE NatText(n)
RECURSIVE MTextR(_, _)
MTextR(m, i) == IF i = 0 THEN "" ELSE Pad4(m[i]) \o MTextR(m, i - 1)
MText(m) == IF m = <<>> THEN "0" ELSE NatText(m[Len(m)]) \o MTextR(m, Len(m) - 1)
IntText(v) == IF v[1] = "int" THEN IF v[2] < 0 THEN "-" \o NatText(-v[2]) ELSE NatText(v[2])
              ELSE (IF v[2] < 0 THEN "-" ELSE "") \o MText(v[3])

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE NatOfDigits(_, _, _)
NatOfDigits(s, i, acc) == IF i > Len(s) THEN acc ELSE NatOfDigits(s, i + 1, 10 * acc + DigitOf[Ch(s, i)])
RECURSIVE StripZeros(_)
StripZeros(f) == IF Len(f) > 1 /\ Ch(f, Len(f)) = "0" THEN StripZeros(SubSeq(f, 1, Len(f) - 1)) ELSE f
\* The value <<"flt", 1024 * x>> of a decimal fraction x that is a small
\* multiple of 1/1024, and <<"fx", decimal notation>> for any other one (of
\* at most 15 digits).
FloatOfText(t) ==
    LET neg  == Ch(t, 1) = "-"
        s    == IF neg THEN SubSeq(t, 2, Len(t)) ELSE t
        dot  == CHOOSE i \in 1..Len(s) : Ch(s, i) = "."
        ip   == SubSeq(s, 1, dot - 1)
        fp   == StripZeros(SubSeq(s, dot + 1, Len(s)))
        fx   == <<"fx", (IF neg THEN "-" ELSE "") \o ip \o "." \o StripZeros(fp)>>
        \* 1024 times the fraction, L digits too far left
        L    == Len(fp)
        m    == MText(MMul1(MOfDigits(fp), 1024))
        whole == fp = "0" \/ (Len(m) > L /\ \A i \in (Len(m) - L + 1)..Len(m) : Ch(m, i) = "0")
    IN IF Len(ip) > 6 \/ L > 10 \/ ~whole THEN fx
       ELSE LET k == NatOfDigits(ip, 1, 0) * 1024 + (IF fp = "0" THEN 0 ELSE NatOfDigits(SubSeq(m, 1, Len(m) - L), 1, 0))
            IN IF k >= 1000000000 THEN fx
               ELSE IF neg THEN IF k = 0 THEN <<"fx", "-0.0">> ELSE <<"flt", -k>>
               ELSE <<"flt", k>>
=============================================================================
