------------------------------ MODULE DuneRand ------------------------------
(***************************************************************************)
(* What a random operation may give, as a set, and what has to turn up     *)
(* among many draws.  A value which the evaluator left open (an element of *)
(* a list, a permutation of one, a number of a range) stands for a set of  *)
(* outcomes; where the set is small all of them have to turn up, where it  *)
(* is large its coarse views do: the place of an element in a permutation, *)
(* the residues and the tenth of the range of a number.                    *)
(***************************************************************************)
EXTENDS DuneEval, FiniteSets

\* How many outcomes v stands for; -1: too many to list.
TooMany == 130
RECURSIVE Outcomes(_), Product(_), Fact(_)
Fact(n) == IF n < 2 THEN 1 ELSE n * Fact(n - 1)
Cap(n) == IF n > TooMany THEN -1 ELSE n
Product(vs) == IF vs = <<>> THEN 1
               ELSE LET a == Outcomes(vs[1])
                        b == Product(Tail(vs))
                    IN IF a < 0 \/ b < 0 THEN -1 ELSE Cap(a * b)
Outcomes(v) ==
    CASE v[1] = "oneof" -> Cap(Len(v[2]))
      [] v[1] = "perm" -> IF Len(v[2]) > 5 THEN -1 ELSE Fact(Len(v[2]))
      [] v[1] = "between" -> LET d == ISub(v[3], v[2])
                             IN IF d[1] # "int" THEN -1 ELSE Cap(d[2])
      [] v[1] = "list" -> Product(v[2])
      [] OTHER -> 1

\* All the outcomes, as a sequence (for Outcomes(v) > 0).
RECURSIVE Perms(_), Crosses(_), From(_, _), All(_), JoinSeqs(_)
JoinSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o JoinSeqs(Tail(ss))
Perms(xs) == IF xs = <<>> THEN <<<<>>>>
             ELSE JoinSeqs([i \in 1..Len(xs) |->
                     LET rest == Perms(SubSeq(xs, 1, i - 1) \o SubSeq(xs, i + 1, Len(xs)))
                     IN [j \in 1..Len(rest) |-> <<xs[i]>> \o rest[j]]])
Crosses(vs) == IF vs = <<>> THEN <<<<>>>>
               ELSE LET a == All(vs[1])
                        b == Crosses(Tail(vs))
                    IN JoinSeqs([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> <<a[i]>> \o b[j]]])
From(l, h) == IF l = h THEN <<>> ELSE <<l>> \o From(IAdd(l, IntV(1)), h)
All(v) ==
    CASE v[1] = "oneof" -> JoinSeqs([i \in 1..Len(v[2]) |-> All(v[2][i])])
      [] v[1] = "perm" -> LET p == Perms(v[2]) IN [i \in 1..Len(p) |-> <<"list", p[i]>>]
      [] v[1] = "between" -> From(v[2], v[3])
      [] v[1] = "list" -> LET p == Crosses(v[2]) IN [i \in 1..Len(p) |-> <<"list", p[i]>>]
      [] OTHER -> <<v>>

\* Coarse views of a number of a wide range: its residues, and which tenth of the range it lies in.
Moduli == {2, 3, 7, 10}
Residue(o, m) == LET r == IRem(o, IntV(m)) IN IF r[2] < 0 THEN r[2] + m ELSE r[2]
\* The k-th of ten bounds which cut l..h; the steps are computed apart as h - l may not be a 64-bit number.
Bound(l, h, k) == IF k = 10 THEN h
                  ELSE LET part(x) == IMul(IQuo(x, IntV(10)), IntV(k)) IN IAdd(l, ISub(part(h), part(l)))

\* The first of the draws os that is not an outcome of v at all; 0: none.
FirstOf(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Foreign(v, os) == FirstOf({i \in 1..Len(os) : ~Fits(v, os[i])})

\* What never turned up among the draws os.  Where elements are functions nothing can be told apart.
Never(v, os) ==
    IF HasFn(v) THEN {}
    ELSE IF Outcomes(v) > 0
         THEN LET all == All(v)
                  seen == {Dbg(os[i]) : i \in 1..Len(os)}
              IN {all[i] : i \in {j \in 1..Len(all) : Dbg(all[j]) \notin seen}}
    ELSE CASE v[1] = "oneof" -> LET seen == {Dbg(os[i]) : i \in 1..Len(os)}
                                IN {v[2][i] : i \in {j \in 1..Len(v[2]) : Dbg(v[2][j]) \notin seen}}
           [] v[1] = "perm" ->
                LET n == Len(v[2])
                    name == TLCEval([i \in 1..n |-> Dbg(v[2][i])])
                    at == TLCEval([p \in 1..n |-> {Dbg(os[i][2][p]) : i \in 1..Len(os)}])
                IN {<<"element at", v[2][i], p>> : <<i, p>> \in {<<j, q>> \in (1..n) \X (1..n) : name[j] \notin at[q]}}
           [] v[1] = "between" ->
                LET left == TLCEval([i \in 1..Len(os) |-> Residue(os[i], 210)])
                    bound == TLCEval([k \in 0..10 |-> Bound(v[2], v[3], k)])
                IN {<<"residue", m, r>> : <<m, r>> \in {<<a, b>> \in Moduli \X (0..9) : b < a /\ b \notin {left[i] % a : i \in 1..Len(os)}}}
                   \cup {<<"tenth", k>> : k \in {j \in 1..10 : ~\E i \in 1..Len(os) : ICmp(bound[j - 1], os[i]) <= 0 /\ ICmp(os[i], bound[j]) < 0}}
           [] OTHER -> {}
=============================================================================
