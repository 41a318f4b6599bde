------------------------------ MODULE DesignRand ------------------------------
(***************************************************************************)
(* Drawing as a machine with choices.  A shuffle exchanges elements from   *)
(* the last place down, each with one at or before it; a choice walks the  *)
(* list and may stop at every element; a number is drawn by walking the    *)
(* range.  Every ending is an outcome that DuneRand permits, and every     *)
(* permitted outcome ends some behaviour (the counts below are checked by  *)
(* Reached, which records the endings of every request).                   *)
(***************************************************************************)
EXTENDS DuneRand
CONSTANT Longest
VARIABLES req,    \* [op, xs] or [op, l, h]
          at,     \* where the machine is: a place of the list, an offset
          xs,     \* the list being shuffled
          out     \* <<>> or <<the outcome>>
vars == <<req, at, xs, out>>

Items == 1..3     \* elements, with repetitions
Lists == UNION {[1..n -> Items] : n \in 0..(Longest - 1)} \cup {[i \in 1..n |-> i] : n \in 0..Longest}
Ends == -2..Longest
Reqs == {[op |-> "shuffle", xs |-> x] : x \in Lists} \cup {[op |-> "choose", xs |-> x] : x \in Lists}
        \cup {[op |-> "int", l |-> l, h |-> h] : l \in Ends, h \in Ends}
Vals(x) == [i \in 1..Len(x) |-> IntV(x[i])]
\* What the library says.
Said(r) == IF r.op = "int" THEN RandFn("rand@int", <<IntV(r.l), IntV(r.h)>>)
           ELSE RandFn("rand@" \o r.op, <<ListV(Vals(r.xs))>>)

Init == /\ req \in Reqs
        /\ out = <<>>
        /\ xs = IF req.op = "int" THEN <<>> ELSE Vals(req.xs)
        /\ at = IF req.op = "int" THEN req.l ELSE IF req.op = "choose" THEN 1 ELSE Len(req.xs)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Step ==
    /\ out = <<>>
    /\ UNCHANGED req
    /\ CASE req.op = "shuffle" ->
              IF at < 2 THEN out' = <<ListV(xs)>> /\ UNCHANGED <<at, xs>>
              ELSE \E j \in 1..at : xs' = Swap(xs, at, j) /\ at' = at - 1 /\ UNCHANGED out
         [] req.op = "choose" ->
              /\ at <= Len(xs)
              /\ \/ out' = <<xs[at]>> /\ UNCHANGED <<at, xs>>
                 \/ at < Len(xs) /\ at' = at + 1 /\ UNCHANGED <<xs, out>>
         [] OTHER ->
              /\ at < req.h
              /\ \/ out' = <<IntV(at)>> /\ UNCHANGED <<at, xs>>
                 \/ at + 1 < req.h /\ at' = at + 1 /\ UNCHANGED <<xs, out>>
Spec == Init /\ [][Step]_vars

\* Only what is permitted is drawn, and an operand keeps its elements on the way.
Permitted == out # <<>> => Said(req)[1] = "ok" /\ Fits(Said(req)[2], out[1])
Kept == req.op = "shuffle" => Fits(<<"perm", Vals(req.xs)>>, ListV(xs))
\* A request is refused exactly when the machine can draw nothing.
Refused == (Said(req)[1] = "ok") = (IF req.op = "int" THEN req.l < req.h ELSE req.op = "shuffle" \/ req.xs # <<>>)
\* All that is permitted can still be drawn from the start: from a state it can reach what agrees with what is settled.
Reach ==
    LET done == IF req.op = "shuffle" THEN SubSeq(xs, at + 1, Len(xs)) ELSE <<>>
        all == IF Said(req)[1] = "ok" THEN All(Said(req)[2]) ELSE <<>>
    IN out = <<>> /\ req.op = "shuffle" =>
         \A i \in 1..Len(all) :
            LET o == all[i][2]
            IN at = Len(xs) \/ SubSeq(o, at + 1, Len(o)) # done \/ \E j \in 1..at : xs[j] = o[at]
\* The list of outcomes has the right length, and each fits.
Listed == Said(req)[1] = "ok" =>
            LET v == Said(req)[2] IN Outcomes(v) > 0 /\ Len(All(v)) = Outcomes(v) /\ \A i \in 1..Len(All(v)) : Fits(v, All(v)[i])
\* Judging: all outcomes together are complete, and leaving one out is noticed unless it is there twice.
Noticed == at = (IF req.op = "int" THEN req.l ELSE IF req.op = "choose" THEN 1 ELSE Len(req.xs)) /\ Said(req)[1] = "ok" =>
            LET v == Said(req)[2]
                all == All(v)
            IN /\ Never(v, all) = {} /\ Foreign(v, all) = 0
               /\ \A i \in 1..Len(all) :
                    (\E j \in 1..Len(all) : j # i /\ all[j] = all[i])
                      = (Never(v, SubSeq(all, 1, i - 1) \o SubSeq(all, i + 1, Len(all))) = {})
=============================================================================
