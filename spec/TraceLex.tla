------------------------------ MODULE TraceLex ------------------------------
(* Judges tokenizations recorded from the implementation.                  *)
EXTENDS DuneLex, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l
vars == <<sid, l>>

Expect(c) == LET ts == Lex(c.text) IN [toks |-> ShowTokens(c.text, ts), diags |-> ShowDiags(c.text, ts), spec |-> Lossless(c.text, ts) /\ DiagsInside(ts)]
Judge(i) ==
    LET c == Cases[i]
        e == Expect(c)
    IN /\ Assert(e.spec, <<"specification not lossless", c.text>>)
       /\ IF "toks" \in DOMAIN c /\ c.toks = e.toks /\ c.diags = e.diags THEN TRUE
          ELSE PrintT("MISMATCH " \o ToJson([i |-> i, l |-> 1, want |-> e]))

Init == sid \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ Judge(sid) /\ l' = 1 /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
