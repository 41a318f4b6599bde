------------------------------ MODULE TraceRand ------------------------------
(***************************************************************************)
(* Judges many draws of one program, each from the state a preamble left:  *)
(* every draw is an outcome the specification permits, and every permitted *)
(* outcome (or coarse view of it) turns up.                                *)
(***************************************************************************)
EXTENDS DuneRand
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l
vars == <<sid, l>>
Position == vars

Start == [e |-> [b |-> "CWD" :> Str("/"), base |-> DOMAIN Base], o |-> "", l |-> IntV(0), n |-> 0,
          f |-> [root |-> <<"nowhere">>, t |-> (<<>> :> <<"dir">>)], p |-> "/", x |-> EmptyB, i |-> <<>>]
RECURSIVE After(_, _, _)
After(asts, i, s) == IF i > Len(asts) THEN s ELSE After(asts, i + 1, Ev(asts[i], s, 0).s)

Say(kind, i, why, want) == PrintT(kind \o " " \o ToJson([i |-> i, l |-> 1, why |-> why, want |-> want]))
Judge(i) ==
    LET c == Cases[i]
        r == Ev(c.ast, After(c.pre, 1, Start), 0)
    IN IF r.k # "ok" THEN Say("SKIP", i, "", "")
       ELSE LET f == Foreign(r.v, c.draws)
            IN IF f > 0 THEN Say("MISMATCH", i, "a draw that is not permitted", [draw |-> c.draws[f], of |-> r.v])
               ELSE LET n == Never(r.v, c.draws)
                    IN n = {} \/ Say("MISMATCH", i, "an outcome that never turns up", [never |-> n])
Init == sid \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ sid' = sid /\ Judge(sid)
Spec == Init /\ [][Next]_vars
=============================================================================
