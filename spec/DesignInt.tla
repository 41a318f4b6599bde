----------------------------- MODULE DesignInt -----------------------------
(***************************************************************************)
(* The number and order part of the specification, checked by itself:      *)
(* against the integers of TLA+ where those reach, and by the laws of      *)
(* arithmetic and of an order beyond.  States are pairs of values.         *)
(***************************************************************************)
EXTENDS DuneLib

Near == -24..24
Edge == {IntV(0), IntV(1), IntV(-1), IntV(2), IntV(-2), IntV(3), IntV(-7), IntV(10), IntV(9999), IntV(10000), IntV(-10001), IntV(999999999), IntV(-999999999),
         <<"big", 1, Max64>>, <<"big", -1, Max64>>, <<"big", -1, Min64>>, <<"big", 1, <<5806, 5477, 368, 3372, 922>> >>,
         <<"big", 1, <<0, 0, 10>> >>, <<"big", -1, <<0, 0, 10>> >>, <<"big", 1, <<7296, 9496, 42>> >>, <<"big", 1, <<9999, 9999, 9999, 9999, 9>> >>,
         <<"big", 1, <<499, 370, 4000, 3>> >>, <<"big", -1, <<1, 0, 0, 1>> >>}
Texts == {Str(""), Str("a"), Str("ab"), Str("b"), Str("é"), Str("中"), Str("A"), Str(" ")}
Flts == {<<"flt", 0>>, <<"flt", 512>>, <<"flt", -512>>, <<"flt", 1024>>, <<"flt", 2048>>, <<"fx", "-0.0">>}
Lists == {ListV(<<>>), ListV(<<IntV(1)>>), ListV(<<IntV(1), IntV(2)>>), ListV(<<IntV(2)>>), ListV(<<Str("a")>>), ListV(<<ListV(<<IntV(1)>>)>>), ListV(<<NoneV>>)}
Maps == {MapV(<<>>), MapV(<< <<"a", IntV(1)>> >>), MapV(<< <<"a", IntV(1)>>, <<"b", IntV(2)>> >>), MapV(<< <<"b", IntV(1)>> >>)}
Others == {NoneV, BoolV(TRUE), BoolV(FALSE), <<"sym", "a">>, <<"sym", "b">>, <<"quo", IntV(1)>>}
Values == Edge \cup Texts \cup Flts \cup Lists \cup Maps \cup Others

VARIABLES a, b
vars == <<a, b>>
Init == \/ a \in Values /\ b \in Values
        \/ a \in {IntV(n) : n \in Near} /\ b \in {IntV(n) : n \in Near}
Next == UNCHANGED vars

TruncQ(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
Native == (a[1] = "int" /\ b[1] = "int" /\ a[2] \in -40000..40000 /\ b[2] \in -40000..40000) =>
    /\ IAdd(a, b) = IntV(a[2] + b[2])
    /\ ISub(a, b) = IntV(a[2] - b[2])
    /\ IMul(a, b) = Norm(IF (a[2] < 0) # (b[2] < 0) THEN -1 ELSE 1, MMul(Mag(a), Mag(b)))
    /\ (a[2] \in -30000..30000 /\ b[2] \in -30000..30000) => IMul(a, b) = IntV(a[2] * b[2])
    /\ b[2] # 0 => IQuo(a, b) = IntV(TruncQ(a[2], b[2])) /\ IRem(a, b) = IntV(a[2] - b[2] * TruncQ(a[2], b[2]))
    /\ ICmp(a, b) = IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0
Ring == (IsInt(a) /\ IsInt(b)) =>
    /\ IAdd(a, b) = IAdd(b, a) /\ IMul(a, b) = IMul(b, a)
    /\ ISub(IAdd(a, b), b) = a /\ IAdd(ISub(a, b), b) = a
    /\ \A c \in {IntV(3), IntV(-1), <<"big", 1, Max64>>} : IMul(IAdd(a, b), c) = IAdd(IMul(a, c), IMul(b, c))
    /\ Sign(b) # 0 => /\ IAdd(IMul(IQuo(a, b), b), IRem(a, b)) = a
                      /\ IQuo(IMul(a, b), b) = a
                      /\ Sign(IRem(a, b)) \in {0, Sign(a)}
                      /\ MCmp(Mag(IRem(a, b)), Mag(b)) < 0
                      /\ IQuo(INeg(a), b) = INeg(IQuo(a, b))
    /\ ICmp(a, b) = -ICmp(b, a)
    /\ ICmp(a, b) = Sign(ISub(a, b))
    /\ ParseInt(IntText(a)) = (IF InRange(a) THEN a ELSE NoneV)
\* Results leave the range only as an error.
Checks == (IsInt(a) /\ IsInt(b)) =>
    \A op \in {"+", "-", "*", "//", "%"} : LET r == Arith(op, a, b) IN r = NoneV \/ (InRange(a) /\ InRange(b) => InRange(r))
\* Equality and order.
Ordered ==
    /\ EqV(a, b) = EqV(b, a)
    /\ EqV(a, a) = "T"
    /\ CmpV(a, b) = "lt" <=> CmpV(b, a) = "gt"
    /\ CmpV(a, b) = "eq" <=> CmpV(b, a) = "eq"
    /\ (IsInt(a) /\ IsInt(b)) \/ (a[1] = "str" /\ b[1] = "str") => (EqV(a, b) = "T" <=> CmpV(a, b) = "eq") /\ CmpV(a, b) \in {"lt", "eq", "gt"}
    /\ (a \in Texts /\ b \in Texts) => \A c \in Texts : CmpV(a, b) = "lt" /\ CmpV(b, c) = "lt" => CmpV(a, c) = "lt"
    /\ (a \in Lists /\ b \in Lists) => \A c \in Lists : CmpV(a, b) = "lt" /\ CmpV(b, c) = "lt" => CmpV(a, c) = "lt"
Spec == Init /\ [][Next]_vars
=============================================================================
