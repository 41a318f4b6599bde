----------------------------- MODULE DesignShell ----------------------------
(***************************************************************************)
(* The prompt, checked on the specification by itself: a person types any  *)
(* lines of a small vocabulary.  What comes of them has to be what their   *)
(* complete entries do when they are run one after another, however they   *)
(* were spread over lines.                                                 *)
(***************************************************************************)
EXTENDS DuneShell
CONSTANT Longest
Vocabulary == <<"let x = 1", "x", "{", "x }", "", ")", "zz 1", "1 +", "_ ~> { let x = 8; x }", "'vwhere", "exit 3", "{ let x = x + 1; zz 2 }", "unbind 'report">>
VARIABLES h, typed, old
vars == <<h, typed, old>>
Root == [root |-> <<"r">>, t |-> (<<>> :> <<"dir">>)]
Fresh == [Begin("/r", Root, EmptyB, "/r", [file |-> "", exec |-> <<>>, hasx |-> FALSE, inter |-> TRUE], <<>>) EXCEPT !.ph = "repl"]
Init == h = <<>> /\ typed = <<>> /\ old = <<>>
Type(line) == /\ typed' = Append(typed, line)
              /\ old' = h
              /\ h' = ReplStep([h EXCEPT !.s.i = <<line>>])
Next == \/ h = <<>> /\ h' = Fresh /\ UNCHANGED <<typed, old>>
        \/ /\ h # <<>> /\ Len(typed) < Longest
           /\ h.ph = "repl"
           /\ \E i \in 1..Len(Vocabulary) : Type(Vocabulary[i])
Spec == Init /\ [][Next]_vars

Complete(ls) == Parse(Join(ls, NL)).r = "ok"
FirstOf(ls, P(_)) == IF \E k \in 1..Len(ls) : P(k) THEN CHOOSE k \in 1..Len(ls) : P(k) /\ \A j \in 1..(k - 1) : ~P(j) ELSE 0
\* Where the entry at the beginning of these lines ends: when it is complete, or abandoned.
EndOf(ls) == FirstOf(ls, LAMBDA k : ls[k] = "" \/ Complete(SubSeq(ls, 1, k)))
RECURSIVE Entries(_), Rest(_)
Entries(ls) == LET k == EndOf(ls)
               IN IF k = 0 THEN <<>>
                  ELSE (IF Complete(SubSeq(ls, 1, k)) THEN <<Join(SubSeq(ls, 1, k), NL)>> ELSE <<>>) \o Entries(SubSeq(ls, k + 1, Len(ls)))
Rest(ls) == LET k == EndOf(ls) IN IF k = 0 THEN ls ELSE Rest(SubSeq(ls, k + 1, Len(ls)))

\* The entries as one program each, in a shell of its own.
RECURSIVE Fold(_, _)
Fold(s, ts) ==
    IF ts = <<>> THEN OkS(s, NoneV)
    ELSE LET r == Ev(Parse(ts[1]).ast, s, 0)
             q == IF r.k # "ok" \/ r.v = NoneV THEN r
                  ELSE IF r.v[1] = "sym" THEN Ev(App(r.v, <<>>), r.s, 0)
                  ELSE IF r.v[1] = "mac" THEN Ev(App(<<"sym", "report">>, <<App(r.v, <<Str("/r")>>)>>), r.s, 0)
                  ELSE Ev(App(<<"sym", "report">>, <<Quo(r.v)>>), r.s, 0)
         IN IF q.k \in {"exit", "skip"} THEN q ELSE Fold(q.s, Tail(ts))

Live == h # <<>>
OnlyEntriesRun == Live => h.log = Entries(typed)
WhatIsPending == Live => IF h.ph = "repl" THEN h.pend = Rest(typed) ELSE TRUE
AnEmptyLineEndsIt == Live /\ typed # <<>> /\ h.ph = "repl" => (typed[Len(typed)] = "" => h.pend = <<>>)
SameAsEntries == Live => LET r == Fold(Fresh.s, Entries(typed))
                         IN IF h.ph = "skip" THEN r.k = "skip" ELSE (h.ph = "end") = (r.k = "exit") /\ r.s.e = h.s.e /\ r.s.o = h.s.o
\* What is not run changes nothing, and what fails is reported and loses nothing.
Nothing == Live /\ old # <<>> /\ h.ph = "repl" =>
             /\ (h.log = old.log => h.s.e = old.s.e /\ h.s.o = old.s.o)
             /\ (h.err # old.err => DOMAIN old.s.e.b \subseteq DOMAIN h.s.e.b)
             /\ StartsWith(h.err, old.err)
             /\ (h.pend # <<>> => h.err = old.err /\ h.log = old.log)
=============================================================================
