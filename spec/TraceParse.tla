----------------------------- MODULE TraceParse -----------------------------
(* Judges parses recorded from the implementation.                         *)
EXTENDS DuneDiag, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l
vars == <<sid, l>>

Judge(i) ==
    LET c == Cases[i]
        e == Parse(c.text)
        mode == c.mode
        same == IF "r" \notin DOMAIN c \/ "panic" \in DOMAIN c THEN FALSE
                ELSE IF e.r = "ok" THEN c.r = "ok" /\ (mode = "tree" => c.ast = e.ast)
                ELSE c.r = "err" /\ (mode = "report" => c.display = Render(c.text, e))
    IN IF same THEN TRUE
       ELSE PrintT("MISMATCH " \o ToJson([i |-> i, l |-> 1, want |-> e,
                     render |-> IF e.r = "err" THEN Render(c.text, e) ELSE ""]))

Init == sid \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ Judge(sid) /\ l' = 1 /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
