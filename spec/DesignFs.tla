------------------------------ MODULE DesignFs ------------------------------
(***************************************************************************)
(* What C13 promises, checked of the file functions of DuneFs: every       *)
(* operation on every tree that operations can build.                      *)
(***************************************************************************)
EXTENDS DuneFs
CONSTANTS MaxDepth, MaxNodes
VARIABLES f, last
vars == <<f, last>>
View == f

Cwd0 == "/r"
Names0 == {"a", "b", "x"}
Paths == {"a", "b", "a/x", "b/a", "a/b/x", "./a", "a/", "a/../b", "/r/a/x", ".", "a/./x", "/r", "a/x/.."}
Data0 == {"", "1", "23"}
Abs0(p) == JoinPath(Cwd0, p)

\* Where a path leads when every name on the way is a directory, decided from its text.
RECURSIVE Straight(_, _)
Straight(cs, acc) == IF cs = <<>> THEN acc
                ELSE IF cs[1] = "." THEN Straight(Tail(cs), acc)
                ELSE IF cs[1] = ".." THEN Straight(Tail(cs), IF acc = <<>> THEN acc ELSE Above(acc))
                ELSE Straight(Tail(cs), Append(acc, cs[1]))
Spot(p) == LET cs == Straight(Comps(Abs0(p)), <<>>) IN SubSeq(cs, 2, Len(cs))

WellFormed(g) == /\ <<>> \in DOMAIN g.t /\ g.t[<<>>] = <<"dir">>
                 /\ \A x \in DOMAIN g.t \ {<<>>} : IsDirAt(g, Above(x))
Same(g, h, D) == \A x \in D : x \in DOMAIN h.t /\ g.t[x] = h.t[x]
Good(r) == r.r[1] = "ok"

ReadsAgree(g, p) ==
    LET e == Exists(g, Abs0(p))
        d == KindAt(g, Abs0(p), {"dir"})
        r == ReadFile(g, Abs0(p), p)
        l == ListDir(g, Abs0(p), "")
        fi == KindAt(g, Abs0(p), {"file"})
        c == Canon(g, Abs0(p))
    IN e # "?" => /\ {d.f, r.f, l.f, fi.f, c.f} = {g}
                  /\ (e = "T") = Good(c)
                  /\ (e = "T") = (d.r[2] = BoolV(TRUE) \/ fi.r[2] = BoolV(TRUE))
                  /\ Good(r) = (fi.r[2] = BoolV(TRUE))
                  /\ e = "T" => /\ Spot(p) \in DOMAIN g.t
                                /\ (g.t[Spot(p)] = <<"dir">>) = (d.r[2] = BoolV(TRUE))
                                /\ Good(r) => g.t[Spot(p)] = <<"file", r.r[2]>>
                                /\ c.r[2] = Str(Abs(g, Spot(p)))
                                /\ d.r[2] = BoolV(TRUE) => Len(l.r[2][2]) = Cardinality(Children(g, Spot(p)))

WriteLaw(g, p, v, r) == Good(r) =>
    /\ r.f.t[Spot(p)] = <<"file", v>> /\ DOMAIN r.f.t = DOMAIN g.t \cup {Spot(p)}
    /\ Same(g, r.f, DOMAIN g.t \ {Spot(p)}) /\ ReadFile(r.f, Abs0(p), p).r = OkV(v)
AppendLaw(g, p, v, r) == Good(r) =>
    /\ Spot(p) \in DOMAIN g.t /\ DOMAIN r.f.t = DOMAIN g.t /\ Same(g, r.f, DOMAIN g.t \ {Spot(p)})
    /\ r.f.t[Spot(p)] = <<"file", Str(g.t[Spot(p)][2][2] \o v[2])>>
MkdirLaw(g, p, r) == Good(r) =>
    /\ Same(g, r.f, DOMAIN g.t) /\ IsDirAt(r.f, Spot(p))
    /\ \A x \in DOMAIN r.f.t \ DOMAIN g.t : r.f.t[x] = <<"dir">> /\ IsPrefix(x, Spot(p))
    /\ MakeDir(r.f, Abs0(p)) = FOk(r.f, NoneV)
RmdirLaw(g, p, r) == Good(r) =>
    /\ g.t[Spot(p)] = <<"dir">> /\ Children(g, Spot(p)) = {} /\ DOMAIN r.f.t = DOMAIN g.t \ {Spot(p)} /\ Same(r.f, g, DOMAIN r.f.t)
RmLaw(g, p, r) == Good(r) =>
    /\ Spot(p) \in DOMAIN g.t /\ DOMAIN r.f.t = DOMAIN g.t \ Below(g, Spot(p)) /\ Same(r.f, g, DOMAIN r.f.t)
\* What is at a in g is at b in h.
Copied(g, a, h, b) == /\ {SubSeq(x, Len(a) + 1, Len(x)) : x \in Below(g, a)} = {SubSeq(x, Len(b) + 1, Len(x)) : x \in Below(h, b)}
                      /\ \A x \in Below(g, a) : g.t[x] = h.t[b \o SubSeq(x, Len(a) + 1, Len(x))]
MvLaw(g, p, q, r) == Good(r) /\ ~SamePath(Abs0(p), Abs0(q)) =>
    /\ Spot(p) \in DOMAIN g.t /\ Spot(q) \notin DOMAIN g.t /\ ~IsPrefix(Spot(p), Spot(q))
    /\ Copied(g, Spot(p), r.f, Spot(q))
    /\ DOMAIN r.f.t \ Below(r.f, Spot(q)) = DOMAIN g.t \ Below(g, Spot(p))
    /\ Same(g, r.f, DOMAIN g.t \ Below(g, Spot(p)))
    /\ LET back == Rename(r.f, Abs(g, Spot(q)), Abs(g, Spot(p)), Cwd0) IN back.r[1] # "skip" => back = FOk(g, NoneV)
CpLaw(g, p, q, r) == Good(r) /\ ~SamePath(Abs0(p), Abs0(q)) =>
    /\ Spot(p) \in DOMAIN g.t /\ Spot(q) \notin DOMAIN g.t /\ ~IsPrefix(Spot(p), Spot(q))
    /\ Same(g, r.f, DOMAIN g.t) /\ Copied(g, Spot(p), r.f, Spot(q))
    /\ \A x \in DOMAIN r.f.t \ (DOMAIN g.t \cup Below(r.f, Spot(q))) : r.f.t[x] = <<"dir">> /\ IsPrefix(x, Spot(q))
    /\ LET u == Remove(r.f, Abs0(q), Cwd0) IN Good(u) => Same(g, u.f, DOMAIN g.t)
SelfLaw(g, p, q, r) == SamePath(Abs0(p), Abs0(q)) => r = FOk(g, NoneV)

\* Each law and the promise of all of them: no harm done by what fails.
Step(name, r, law, text) ==
    /\ Assert(WellFormed(r.f), <<"not a tree", name, text, f, r>>)
    /\ Assert(Good(r) \/ r.f = f, <<"a failure changed the tree", name, text, f, r>>)
    /\ Assert(law, <<"law", name, text, f, r>>)
    /\ f' = r.f /\ last' = <<name, text, r.r[1]>>

Init == f = [root |-> <<"r">>, t |-> <<>> :> <<"dir">>] /\ last = <<>>
Next == \E p \in Paths :
    \/ \E d \in Data0 : LET r == WriteFile(f, Abs0(p), p, Str(d)) IN Step("write", r, WriteLaw(f, p, Str(d), r), <<p, d>>)
    \/ \E d \in Data0 : LET can == CanAppend(f, Abs0(p))
                            r == IF can = "T" THEN AppendFile(f, Abs0(p), Str(d)) ELSE IF can = "F" THEN FErr(f, "") ELSE FOut(f)
                        IN Step("append", r, AppendLaw(f, p, Str(d), r), <<p, d>>)
    \/ LET r == MakeDir(f, Abs0(p)) IN Step("mkdir", r, MkdirLaw(f, p, r), p)
    \/ LET r == RemoveDir(f, Abs0(p), Cwd0) IN Step("rmdir", r, RmdirLaw(f, p, r), p)
    \/ LET r == Remove(f, Abs0(p), Cwd0) IN Step("rm", r, RmLaw(f, p, r), p)
    \/ \E q \in Paths : LET r == Rename(f, Abs0(p), Abs0(q), Cwd0) IN Step("mv", r, MvLaw(f, p, q, r) /\ SelfLaw(f, p, q, r), <<p, q>>)
    \/ \E q \in Paths : LET r == Copy(f, Abs0(p), Abs0(q)) IN Step("cp", r, CpLaw(f, p, q, r) /\ SelfLaw(f, p, q, r), <<p, q>>)
    \/ Step("read", FOk(f, NoneV), ReadsAgree(f, p), p)
Spec == Init /\ [][Next]_vars
Small == /\ Cardinality(DOMAIN f.t) <= MaxNodes
         /\ \A x \in DOMAIN f.t : Len(x) <= MaxDepth /\ (f.t[x][1] = "file" => Len(f.t[x][2][2]) <= 2)
=============================================================================
