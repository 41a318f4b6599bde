----------------------------- MODULE TraceShell -----------------------------
(***************************************************************************)
(* Judges runs of dunesh recorded from the implementation: what it printed *)
(* and reported, the files it left and its exit status.                    *)
(***************************************************************************)
EXTENDS DuneShell
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, h
vars == <<sid, l, h>>
Position == <<sid, l>>

TreeFn0(ns) == [x \in {ns[i][1] : i \in 1..Len(ns)} |-> ns[CHOOSE i \in 1..Len(ns) : ns[i][1] = x][2]]
PairsFn(ps) == [x \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]]
NodeFits(a, b) == a[1] = b[1] /\ (CASE a[1] = "dir" -> TRUE [] a[1] = "file" -> Fits(a[2], b[2]) [] OTHER -> a = b)
TreeFits(t, o) == DOMAIN t = DOMAIN o /\ \A x \in DOMAIN t : NodeFits(t[x], o[x])
Start(c) == Begin(c.cwd, [root |-> c.root, t |-> (<<>> :> <<"dir">>) @@ TreeFn0(c.tree)], PairsFn(c.inh), c.home,
                  [file |-> c.file, exec |-> c.exec, hasx |-> c.exec # <<>>, inter |-> c.inter], c.lines)
Wrong(g, o) ==
    IF g.code # o.code THEN "status"
    ELSE IF ~FitsText(g.s.o, o.out) THEN "output"
    ELSE IF ~FitsText(g.err, o.err) THEN "reports"
    ELSE IF ~TreeFits(g.s.f.t, (<<>> :> <<"dir">>) @@ TreeFn0(o.tree)) THEN "files"
    ELSE ""
Say(kind, i, k, why, want) == PrintT(kind \o " " \o ToJson([i |-> i, l |-> k, why |-> why, want |-> want]))
JudgeRun(i, g) ==
    LET o == Cases[i].obs
    IN IF g.ph # "end" THEN Say("SKIP", i, l, "", "")
       ELSE LET w == Wrong(g, o)
            IN IF w = "" THEN TRUE ELSE Say("MISMATCH", i, l, w, [out |-> g.s.o, err |-> g.err, code |-> g.code, ran |-> g.log])

\* Every line takes at most one step; one more each for the file, the inline code, the prelude and the end of the input.
Steps(c) == Len(c.lines) + 4
Init == sid \in 1..Len(Cases) /\ l = 0 /\ h = <<>>
Next == /\ l <= Steps(Cases[sid])
        /\ l' = l + 1 /\ sid' = sid
        /\ h' = LET g == IF l = 0 THEN Start(Cases[sid]) ELSE Step(h)
                IN IF l < Steps(Cases[sid]) THEN g ELSE IF JudgeRun(sid, g) THEN g ELSE <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
