----------------------------- MODULE TracePaint -----------------------------
(* Judges recorded highlighted lines.                                       *)
EXTENDS DunePaint, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l
vars == <<sid, l>>
Judge(i) ==
    LET c == Cases[i]
    IN IF "hl" \in DOMAIN c /\ Shows(c.hl, c.text) THEN TRUE
       ELSE PrintT("MISMATCH " \o ToJson([i |-> i, l |-> 1, want |-> Paint(c.text)]))
Init == sid \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ Judge(sid) /\ l' = 1 /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
