------------------------------ MODULE TraceProg ------------------------------
(***************************************************************************)
(* Judges sessions recorded from the implementation: programs run one      *)
(* after another in one shell.  Every step is the specification's step     *)
(* for the program, and what was observed has to be what it allows.  What  *)
(* it leaves open is settled by what was observed.                         *)
(***************************************************************************)
EXTENDS DuneEval
Cases == ndJsonDeserialize(IOEnv.TRACE)
\* The programs of a case with "each" bind nothing: they are judged each by itself.
VARIABLES sid, l,
          cur   \* [s |-> the shell's state, live |-> FALSE once a step was not decided or not allowed]
vars == <<sid, l, cur>>
Position == <<sid, l>>

TreeFn0(ns) == [x \in {ns[i][1] : i \in 1..Len(ns)} |-> ns[CHOOSE i \in 1..Len(ns) : ns[i][1] = x][2]]
PairsFn(ps) == [x \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]]
Start(c) ==
    [e |-> [b |-> "CWD" :> Str(c.cwd), base |-> DOMAIN Base],
     o |-> "", l |-> IntV(0), n |-> 0,
     f |-> IF "tree" \in DOMAIN c THEN [root |-> c.root, t |-> (<<>> :> <<"dir">>) @@ TreeFn0(c.tree)]
           ELSE [root |-> <<"nowhere">>, t |-> (<<>> :> <<"dir">>)],
     p |-> c.cwd,
     x |-> IF "inh" \in DOMAIN c THEN PairsFn(c.inh) ELSE EmptyB,
     i |-> <<>>]

NodeFits(a, b) == a[1] = b[1] /\ (CASE a[1] = "dir" -> TRUE [] a[1] = "file" -> Fits(a[2], b[2]) [] OTHER -> a = b)
TreeFits(t, o) == DOMAIN t = DOMAIN o /\ \A x \in DOMAIN t : NodeFits(t[x], o[x])

\* Names the specification binds differently from before.
Touched(E, F) == {n \in DOMAIN E.b \cup DOMAIN F.b : Lookup(E, n) # Lookup(F, n)} \cup (E.base \ F.base)
EnvFits(E, F, diff) ==
    LET seen == {diff[i][1] : i \in 1..Len(diff)}
    IN /\ \A i \in 1..Len(diff) :
            LET v == Lookup(F, diff[i][1])
            IN IF diff[i][2] = <<"undef">> THEN v = <<"undef">> ELSE v # <<"undef">> /\ Fits(v, diff[i][2])
       /\ \A n \in Touched(E, F) \ seen :
            IF Lookup(E, n) = <<"undef">> \/ Lookup(F, n) = <<"undef">> THEN FALSE ELSE EqV(Lookup(E, n), Lookup(F, n)) # "F"
RECURSIVE SettleEnv(_, _, _)
SettleEnv(F, diff, i) ==
    IF i > Len(diff) THEN F
    ELSE SettleEnv(IF diff[i][1] \in DOMAIN F.b THEN Def(F, diff[i][1], Settle(F.b[diff[i][1]], diff[i][2])) ELSE F, diff, i + 1)

Crashed(o) == o.r[1] \in {"panic", "abort", "hang"}
\* "" or what does not fit; r is the result of the specification's step from s.
Wrong(s, r, o) ==
    IF r.k = "ok" /\ o.r[1] # "ok" THEN "result"
    ELSE IF r.k = "err" /\ o.r[1] # "err" THEN "result"
    ELSE IF r.k = "exit" THEN "result"
    ELSE IF r.k = "ok" /\ ~Fits(r.v, o.r[2]) THEN "result"
    ELSE IF r.k = "err" /\ r.v[1] # o.r[2] THEN "error"
    ELSE IF r.k = "err" /\ "msg" \in DOMAIN o /\ ~FitsText(r.v[2], o.msg) THEN "message"
    ELSE IF r.k = "ok" /\ "show" \in DOMAIN o /\ ~FitsText(Disp(r.v), o.show[1]) THEN "display"
    ELSE IF r.k = "ok" /\ "show" \in DOMAIN o /\ ~FitsText(Dbg(r.v), o.show[2]) THEN "debug"
    ELSE IF ~FitsText(r.s.o, o.out) THEN "output"
    ELSE IF ~EnvFits(s.e, r.s.e, o.env) THEN "environment"
    ELSE IF "cwd" \in DOMAIN o /\ (o.cwd # Cwd(r.s.e) \/ o.pcwd # r.s.p) THEN "directory"
    ELSE IF "tree" \in DOMAIN o /\ ~TreeFits(r.s.f.t, (<<>> :> <<"dir">>) @@ TreeFn0(o.tree)) THEN "files"
    ELSE ""

\* What the specification says, without what functions have captured.
RECURSIVE Plainly(_)
Plainly(v) == CASE v[1] = "lam" -> <<"lam", v[2], v[3]>>
                [] v[1] \in {"list"} -> <<v[1], [i \in 1..Len(v[2]) |-> Plainly(v[2][i])]>>
                [] v[1] = "map" -> <<"map", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Plainly(v[2][i][2])>>]>>
                [] HasFn(v) -> <<"text", Dbg(v)>>
                [] OTHER -> v
Bindings(E) == LET ns == SortNames(DOMAIN E.b) IN [i \in 1..Len(ns) |-> <<ns[i], Plainly(E.b[ns[i]])>>]
Want(r, o) == [k |-> r.k, v |-> IF r.k = "ok" THEN Plainly(r.v) ELSE r.v, out |-> r.s.o, env |-> Bindings(r.s.e),
               cwd |-> Cwd(r.s.e), pcwd |-> r.s.p,
               shown |-> IF r.k = "ok" /\ "show" \in DOMAIN o THEN <<Disp(r.v), Dbg(r.v)>> ELSE <<>>,
               files |-> IF "tree" \in DOMAIN o THEN LET D == DOMAIN r.s.f.t
                            IN {<<x, r.s.f.t[x]>> : x \in D} ELSE {}]
Say(kind, i, k, why, want) == PrintT(kind \o " " \o ToJson([i |-> i, l |-> k, why |-> why, want |-> want]))

JudgeStep(i, k, s) ==
    LET o == Cases[i].steps[k]
        r == IF "ast" \in DOMAIN o THEN Ev(o.ast, [s EXCEPT !.o = ""], 0) ELSE OkS([s EXCEPT !.o = ""], NoneV)
    IN IF Crashed(o) THEN IF Say("MISMATCH", i, k, "crash", o.r) THEN [s |-> s, live |-> FALSE] ELSE <<>>
       ELSE IF o.r[1] = "syn" THEN [s |-> s, live |-> TRUE]
       ELSE IF r.k = "skip" THEN IF Say("SKIP", i, k, "", "") THEN [s |-> s, live |-> "each" \in DOMAIN Cases[i]] ELSE <<>>
       ELSE LET w == Wrong(s, r, o)
            IN IF w # "" THEN IF Say("MISMATCH", i, k, w, Want(r, o)) THEN [s |-> s, live |-> "each" \in DOMAIN Cases[i]] ELSE <<>>
               ELSE [s |-> [r.s EXCEPT !.e = SettleEnv(@, o.env, 1), !.o = "",
                                       !.f.t = IF "tree" \notin DOMAIN o THEN @
                                               ELSE LET obs == TreeFn0(o.tree)
                                                    IN [x \in DOMAIN @ |-> IF @[x][1] = "file" THEN IF Clear(@[x][2]) THEN @[x] ELSE obs[x] ELSE @[x]]],
                     live |-> TRUE]

Init == sid \in 1..Len(Cases) /\ l = 0 /\ cur = [s |-> Start(Cases[sid]), live |-> TRUE]
Next == /\ l < Len(Cases[sid].steps)
        /\ l' = l + 1 /\ sid' = sid
        /\ cur' = IF cur.live THEN JudgeStep(sid, l + 1, cur.s)
                  ELSE IF Say("SKIP", sid, l + 1, "after", "") THEN cur ELSE <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
