----------------------------- MODULE DuneInt64 -----------------------------
(***************************************************************************)
(* Exact integers.  A number is <<"int", n>> when |n| < 10^9 and           *)
(* <<"big", sign, limbs>> otherwise, limbs being its magnitude in base     *)
(* 10^4, least significant first.  Magnitudes (sequences of limbs without  *)
(* leading zeros; <<>> is zero) carry the arithmetic.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 10000
SmallMax == 999999999

RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE MOfNat(_)
MOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o MOfNat(n \div B)

At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MCmpR(_, _, _)
MCmpR(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE MCmpR(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE MCmpR(a, b, Len(a))

RECURSIVE MAddR(_, _, _, _, _)
MAddR(a, b, i, carry, acc) ==
    IF i > Len(a) /\ i > Len(b) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET s == At(a, i) + At(b, i) + carry IN MAddR(a, b, i + 1, s \div B, Append(acc, s % B))
MAdd(a, b) == MAddR(a, b, 1, 0, <<>>)

\* a - b for a >= b
RECURSIVE MSubR(_, _, _, _, _)
MSubR(a, b, i, borrow, acc) ==
    IF i > Len(a) THEN Trim(acc)
    ELSE LET s == a[i] - At(b, i) - borrow
         IN MSubR(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, IF s < 0 THEN s + B ELSE s))
MSub(a, b) == MSubR(a, b, 1, 0, <<>>)

\* a * d for one limb d
RECURSIVE MMul1R(_, _, _, _, _)
MMul1R(a, d, i, carry, acc) ==
    IF i > Len(a) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET s == a[i] * d + carry IN MMul1R(a, d, i + 1, s \div B, Append(acc, s % B))
MMul1(a, d) == IF d = 0 THEN <<>> ELSE MMul1R(a, d, 1, 0, <<>>)
RECURSIVE MMul(_, _)
MMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE LET hi == MMul(a, Tail(b))
                   IN MAdd(MMul1(a, Head(b)), IF hi = <<>> THEN <<>> ELSE <<0>> \o hi)

\* The greatest limb d with b * d <= r, for r < b * B, by bisection.
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF MCmp(MMul1(b, mid), r) <= 0 THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)
\* Long division, most significant limb first; b # <<>>.
RECURSIVE MDivR(_, _, _, _, _)
MDivR(a, b, i, r, q) ==
    IF i = 0 THEN [q |-> Trim(q), r |-> r]
    ELSE LET r1 == Trim(<<a[i]>> \o r)
             d  == QDigit(r1, b, 0, B - 1)
         IN MDivR(a, b, i - 1, MSub(r1, MMul1(b, d)), <<d>> \o q)
MDivMod(a, b) == MDivR(a, b, Len(a), <<>>, <<>>)

Max64 == <<5807, 5477, 368, 3372, 922>>   \* 9223372036854775807
Min64 == <<5808, 5477, 368, 3372, 922>>   \* magnitude of -2^63

(* Numbers. *)
IsInt(v) == v[1] \in {"int", "big"}
Sign(v) == IF v[1] = "big" THEN v[2] ELSE IF v[2] < 0 THEN -1 ELSE IF v[2] = 0 THEN 0 ELSE 1
Mag(v) == IF v[1] = "big" THEN v[3] ELSE MOfNat(IF v[2] < 0 THEN -v[2] ELSE v[2])
RECURSIVE NatOfM(_)
NatOfM(m) == IF m = <<>> THEN 0 ELSE Head(m) + B * NatOfM(Tail(m))
SmallM(m) == Len(m) < 3 \/ (Len(m) = 3 /\ m[3] < 10)
Norm(sign, m) == IF SmallM(m) THEN <<"int", IF sign < 0 THEN -NatOfM(m) ELSE NatOfM(m)>>
                 ELSE <<"big", sign, m>>
IntV(n) == <<"int", n>>

InRange(v) == v[1] = "int" \/ MCmp(v[3], IF v[2] < 0 THEN Min64 ELSE Max64) <= 0

INeg(v) == IF v[1] = "int" THEN <<"int", -v[2]>> ELSE <<"big", -v[2], v[3]>>
Tiny(v) == v[1] = "int"
IAdd(a, b) ==
    IF Sign(a) = 0 THEN b ELSE IF Sign(b) = 0 THEN a
    ELSE IF Sign(a) = Sign(b) THEN Norm(Sign(a), MAdd(Mag(a), Mag(b)))
    ELSE LET c == MCmp(Mag(a), Mag(b))
         IN IF c = 0 THEN IntV(0)
            ELSE IF c > 0 THEN Norm(Sign(a), MSub(Mag(a), Mag(b)))
            ELSE Norm(Sign(b), MSub(Mag(b), Mag(a)))
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == Norm(Sign(a) * Sign(b), MMul(Mag(a), Mag(b)))
\* Quotient truncated toward zero, remainder with the sign of the dividend.
IQuo(a, b) == Norm(Sign(a) * Sign(b), MDivMod(Mag(a), Mag(b)).q)
IRem(a, b) == Norm(Sign(a), MDivMod(Mag(a), Mag(b)).r)
ICmp(a, b) == IF a[1] = "int" /\ b[1] = "int"
              THEN IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0
              ELSE IF Sign(a) # Sign(b) THEN IF Sign(a) < Sign(b) THEN -1 ELSE 1
              ELSE IF Sign(a) < 0 THEN MCmp(Mag(b), Mag(a)) ELSE MCmp(Mag(a), Mag(b))
=============================================================================
