----------------------------- MODULE DesignLib -----------------------------
(***************************************************************************)
(* The library of the specification, checked by itself: the algebra of     *)
(* lists, maps, texts and numbers holds of what LibFn computes.  A state   *)
(* is a list, a map or a text built step by step, or a number.             *)
(***************************************************************************)
EXTENDS DuneLib
CONSTANTS MaxLen, What
VARIABLE v
vars == <<v>>

Items == {IntV(1), Str("b"), ListV(<<>>)}
Letters == {"a", "B", "é", "中", " ", NL, "z", "1"}
Names == {"a", "b", "c"}
Pieces(t) == {SubSeq(t, a, b) : a \in 1..(Len(t) + 1), b \in 0..Len(t)}

Ints == {IntV(n) : n \in -17..17} \cup {<<"big", 1, Max64>>, <<"big", -1, Max64>>, <<"big", -1, Min64>>}
        \cup {Norm(sg, Mag(Pow2(k))) : sg \in {1, -1}, k \in {20, 31, 32, 40, 52, 61, 62}}
        \cup {IAdd(Norm(1, Mag(Pow2(k))), IntV(d)) : k \in {31, 32, 61}, d \in {1, -1}}
Flts == {<<"flt", k * 128>> : k \in -33..33} \cup {<<"flt", k>> : k \in {1, -1, 511, 513, -511, -513, 1023, 1025, 999999}}
Numbers == Ints \cup Flts

Init == v = CASE What = "number" -> IntV(0) [] What = "list" -> ListV(<<>>) [] What = "map" -> MapV(<<>>) [] OTHER -> Str("")
Grow == IF What = "number" THEN v = IntV(0) /\ v' \in Numbers ELSE IF What = "list" THEN Len(v[2]) < MaxLen /\ \E x \in Items : v' = ListV(Append(v[2], x))
        ELSE IF What = "map" THEN \E n \in Names, x \in Items : v' = MapV(PutKey(v[2], n, x))
        ELSE Len(v[2]) < MaxLen /\ \E c \in Letters : v' = Str(v[2] \o c)
Next == Grow
Spec == Init /\ [][Next]_vars

F(id, vs) == LibFn(id, vs)
Is(id, vs) == F(id, vs)[2]
Nums == {IntV(n) : n \in 0..(MaxLen + 1)}
ListLaws == What = "list" =>
    /\ Is("list@rev", <<Is("list@rev", <<v>>)>>) = v
    /\ \A n \in Nums :
        LET t == Is("list@take", <<n, v>>)
            d == Is("list@drop", <<n, v>>)
        IN /\ ListV(t[2] \o d[2]) = v
           /\ Is("list@split-at", <<n, v>>) = ListV(<<t, d>>)
           /\ Is("len", <<t>>) = IntV(Min2(n[2], Len(v[2])))
           /\ n[2] > 0 => LET c == Is("list@chunk", <<n, v>>)[2]
                          IN /\ Is("dict@flatten", <<ListV(c)>>) = Is("dict@flatten", <<v>>)
                             /\ \A i \in 1..Len(c) : Len(c[i][2]) = n[2] \/ (i = Len(c) /\ Len(c[i][2]) < n[2] /\ c[i][2] # <<>>)
           /\ n[2] <= Len(v[2]) => LET q == Is("insert", <<v, n, IntV(9)>>)
                                   IN Is("list@nth", <<n, q>>) = IntV(9) /\ RemoveAt(q[2], n[2] + 1) = v[2]
           /\ F("list@nth", <<n, v>>)[1] = (IF n[2] < Len(v[2]) THEN "ok" ELSE "err")
           /\ n[2] < Len(v[2]) => /\ Is("list@nth", <<n, v>>) = IndexV(v, n)
                                  /\ Is("list@nth", <<IntV(n[2] - Len(v[2])), v>>) = IndexV(v, n)
    /\ v[2] # <<>> => Is("list@cons", <<Is("list@head", <<v>>), Is("list@tail", <<v>>)>>) = v
    /\ LET z == Is("list@zip", <<v, Is("list@rev", <<v>>)>>)
       IN v[2] # <<>> => Is("list@unzip", <<z>>) = ListV(<<v, Is("list@rev", <<v>>)>>)
    /\ Is("list@append", <<v, IntV(9)>>) = ListV(v[2] \o <<IntV(9)>>)
    /\ EqV(v, v) = "T"
MapLaws == What = "map" =>
    /\ Is("dict@from-items", <<Is("dict@items", <<v>>)>>) = v
    /\ Is("dict@keys", <<v>>) = Is("keys", <<v>>) /\ Is("dict@values", <<v>>) = Is("vals", <<v>>)
    /\ Is("dict@len", <<v>>) = Is("len", <<v>>)
    /\ \A n \in Names :
        LET put == Is("dict@insert", <<v, Str(n), IntV(9)>>)
            cut == Is("dict@remove", <<v, Str(n)>>)
            has == Is("dict@has?", <<v, Str(n)>>) = BoolV(TRUE)
        IN /\ IndexV(put, Str(n)) = IntV(9) /\ Is("dict@remove", <<put, Str(n)>>) = cut
           /\ (has <=> n \in {v[2][i][1] : i \in 1..Len(v[2])})
           /\ IndexV(cut, Str(n)) = NoneV /\ (has \/ cut = v)
           /\ \A m \in Names \ {n} : IndexV(put, Str(m)) = IndexV(v, Str(m)) /\ IndexV(cut, Str(m)) = IndexV(v, Str(m))
           /\ LET other == MapV(<< <<n, IntV(7)>> >>)
                  u == Is("dict@union", <<v, other>>)
                  i == Is("dict@intersect", <<v, other>>)
                  d == Is("dict@difference", <<v, other>>)
              IN /\ Is("dict@union", <<d, i>>) = v
                 /\ Is("keys", <<u>>) = Is("keys", <<put>>)
                 /\ Is("dict@has?", <<d, Str(n)>>) = BoolV(FALSE)
TextLaws == What = "text" =>
    LET t == v[2]
    IN /\ \A sep \in {"a", " ", NL, "é", "aa", "z1", ""} :
            /\ Is("string@join", <<Is("string@split2", <<Str(sep), v>>), Str(sep)>>) = v
            /\ \A r \in {"", "q", "é"} : Is("string@replace", <<v, Str(sep), Str(r)>>) = Is("string@join", <<Is("string@split2", <<Str(sep), v>>), Str(r)>>)
       /\ \A k \in -27..27 : Is("string@caesar", <<Is("string@caesar", <<v, IntV(k)>>), IntV(-k)>>) = v
       /\ Is("string@join", <<Is("string@chars", <<v>>), Str("")>>) = v
       /\ Is("list@rev", <<Is("list@rev", <<v>>)>>) = v
       /\ Is("len", <<v>>) = IntV(Len(t))
       /\ Is("string@trim", <<v>>) = Is("string@trim-end", <<Is("string@trim-start", <<v>>)>>)
       /\ \A p \in Pieces(t) : /\ Is("string@contains?", <<v, Str(p)>>) = BoolV(TRUE)
                               /\ (Is("string@starts-with?", <<v, Str(p)>>) = BoolV(TRUE)) = (SubSeq(t, 1, Len(p)) = p)
                               /\ (Is("string@ends-with?", <<v, Str(p)>>) = BoolV(TRUE)) = (SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p)
       /\ \A n \in 0..ByteLen(t) : LET r == F("string@split-at", <<v, IntV(n)>>)
                                   IN r[1] = "ok" => Is("string@join", <<r[2], Str("")>>) = v /\ ByteLen(r[2][2][1][2]) = n
       /\ Is("string@to-lower", <<Is("string@to-upper", <<v>>)>>) = Is("string@to-lower", <<v>>)
       /\ Is("string@is-upper", <<v>>) = BoolV(TRUE) => Is("string@to-upper", <<v>>) = v
       /\ \A w \in Range(Is("string@words", <<v>>)[2]) : w[2] # "" /\ ~Contains(w[2], " ") /\ ~Contains(w[2], NL)
       /\ \A w \in Range(Is("string@lines", <<v>>)[2]) : ~Contains(w[2], NL)
\* The value in units of 1/1024, of numbers which are not large.
Q(x) == IF x[1] = "int" THEN x[2] * 1024 ELSE IF x[1] = "flt" THEN x[2] ELSE 0
Whole(x) == Q(x) % 1024 = 0
NumberLaws == What = "number" =>
    /\ IsInt(v) =>
        /\ \A id \in {"math@floor", "math@ceil", "math@round", "math@trunc"} : Is(id, <<v>>) = v
        /\ LET odd == Is("math@isodd", <<v>>) IN odd # Is("math@iseven", <<v>>) /\ odd = BoolV(Sign(IRem(v, IntV(2))) # 0)
        /\ LET r == F("math@abs", <<v>>) IN IF r[1] = "ok" THEN Sign(r[2]) >= 0 /\ r[2] \in {v, INeg(v)} ELSE ~InRange(INeg(v))
        /\ \A n \in {0, 1, 2, 5, 31, 32, 33, 62, 63} :
             LET a == Is("math@rsh", <<v, IntV(n)>>)
                 l == Is("math@l-rsh", <<v, IntV(n)>>)
                 s == Is("math@lsh", <<v, IntV(n)>>)
             IN /\ a = Is("math@a-rsh", <<v, IntV(n)>>)
                \* rounded down: a * 2^n <= v < (a + 1) * 2^n
                /\ ICmp(IMul(a, Pow2(n)), v) <= 0 /\ ICmp(v, IMul(IAdd(a, IntV(1)), Pow2(n))) < 0
                /\ Sign(v) >= 0 => l = a
                /\ n > 0 => Sign(l) >= 0
                /\ n < 63 => Is("math@l-rsh", <<l, IntV(1)>>) = Is("math@l-rsh", <<v, IntV(n + 1)>>)
                /\ InRange(IMul(v, Pow2(n))) => s = IMul(v, Pow2(n))
                /\ n < 63 => Is("math@lsh", <<s, IntV(1)>>) = Is("math@lsh", <<v, IntV(n + 1)>>)
                /\ InRange(s)
        /\ \A n \in {-1, 64, 65, 1000} : \A id \in {"math@rsh", "math@l-rsh", "math@a-rsh", "math@lsh"} : F(id, <<v, IntV(n)>>)[1] = "err"
        /\ \A n \in 0..6 : LET p == F("math@pow", <<v, IntV(n)>>)
                                q == F("math@pow", <<v, IntV(n + 1)>>)
                            IN /\ n = 0 => p[2] = IntV(1)
                               /\ q[1] = "ok" => p[1] = "ok" /\ q[2] = IMul(p[2], v)
                               /\ (p[1] = "ok" /\ q[1] = "err") => ~InRange(IMul(p[2], v))
        /\ LET f == F("math@fact", <<v>>)
               g == F("math@fact", <<IAdd(v, IntV(1))>>)
           IN IF Sign(v) < 0 THEN f[1] = "err"
              ELSE /\ Sign(v) = 0 => f[2] = IntV(1)
                   /\ g[1] = "ok" => f[1] = "ok" /\ g[2] = IMul(f[2], IAdd(v, IntV(1)))
                   /\ (v[1] = "int" /\ v[2] = 17) => (f[1] = "ok" /\ F("math@fact", <<IntV(20)>>)[1] = "ok" /\ F("math@fact", <<IntV(21)>>)[1] = "err")
    /\ v[1] = "flt" =>
        LET f == Flt0(Is("math@floor", <<v>>))
            c == Flt0(Is("math@ceil", <<v>>))
            t == Flt0(Is("math@trunc", <<v>>))
            r == Flt0(Is("math@round", <<v>>))
        IN /\ Whole(f) /\ Whole(c) /\ Whole(t) /\ Whole(r)
           /\ Q(f) <= v[2] /\ v[2] < Q(f) + 1024
           /\ Q(c) >= v[2] /\ v[2] > Q(c) - 1024
           /\ t = (IF v[2] < 0 THEN c ELSE f)
           /\ LET near == IF v[2] - Q(f) < Q(c) - v[2] THEN f ELSE IF v[2] - Q(f) > Q(c) - v[2] THEN c ELSE IF v[2] < 0 THEN f ELSE c
              IN r = near
           /\ Q(Is("math@abs", <<v>>)) = (IF v[2] < 0 THEN -v[2] ELSE v[2])
           /\ Is("math@isodd", <<v>>) = BoolV((Q(t) \div 1024) % 2 = 1) /\ Is("math@iseven", <<v>>) # Is("math@isodd", <<v>>)
    \* The sample points: two functions which undo each other, and how they grow.
    /\ LET C(id, x) == IF F(id, <<x>>)[2][1] = "about" THEN InUnits(F(id, <<x>>)[2][2], 6) ELSE <<>>
           up == {"math@sinh", "math@tanh", "math@asinh", "math@acosh", "math@atanh", "math@ln", "math@log2", "math@log10", "math@sqrt", "math@cbrt", "math@asin", "math@atan"}
       IN v[1] = "flt" => LET w == <<"flt", v[2] - 128>> IN \A id \in up : C(id, v) # <<>> /\ C(id, w) # <<>> => C(id, w)[1] <= C(id, v)[1]
=============================================================================
