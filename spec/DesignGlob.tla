----------------------------- MODULE DesignGlob -----------------------------
(***************************************************************************)
(* What C28 promises: on every small tree every pattern finds exactly the  *)
(* paths that fit it, by a definition that does not walk, and ls and tree  *)
(* report every node there is.                                             *)
(***************************************************************************)
EXTENDS DuneFs
CONSTANTS MaxNodes, MaxLevel, MaxParts
VARIABLES f
vars == <<f>>

Names0 == {"a", "b", "ab"}
Parts0 == {"*", "**", "a", "?", "[!a]*", "*b"}
RECURSIVE PatternsOf(_)
PatternsOf(n) == IF n = 1 THEN Parts0 ELSE LET P == PatternsOf(n - 1) IN P \cup {p \o "/" \o x : p \in P, x \in Parts0}
Patterns == LET P == PatternsOf(MaxParts) IN P \cup {p \o "/" : p \in P}

(* A name fits a part by its characters. *)
Fits0(x, n) == CASE x = "*" -> TRUE
                 [] x = "?" -> Len(n) = 1
                 [] x = "[!a]*" -> Ch(n, 1) # "a"
                 [] x = "*b" -> Ch(n, Len(n)) = "b"
                 [] OTHER -> x = n
\* The names of a path are dealt out to the parts: ** takes any number (at least one in
\* the end, where it stands for the directories below), another part one.
PathFits(ps, ns) == \E cut \in [0..Len(ps) -> 0..Len(ns)] :
    /\ cut[0] = 0 /\ cut[Len(ps)] = Len(ns)
    /\ \A i \in 1..Len(ps) : /\ cut[i - 1] <= cut[i]
                             /\ i = Len(ps) => cut[i - 1] < cut[i]
                             /\ ps[i] # "**" => cut[i] = cut[i - 1] + 1 /\ Fits0(ps[i], ns[cut[i]])
\* A path that ends in ** is a directory, as is all that is asked for with a slash.
Wanted(g, pat) == LET all == SplitOn(pat, "/")
                      only == all[Len(all)] = ""
                      ps == IF only THEN SubSeq(all, 1, Len(all) - 1) ELSE all
                  IN {x \in DOMAIN g.t \ {<<>>} : PathFits(ps, x) /\ (only \/ ps[Len(ps)] = "**" => g.t[x] = <<"dir">>)}
Texts(v) == {v[2][i] : i \in 1..Len(v[2])}
GlobLaw(g) == \A pat \in Patterns :
    LET r == GlobFiles(g, "/r", pat)
        W == Wanted(g, pat)
    IN r.r[1] = "skip" \/ Assert(/\ r.f = g /\ r.r[1] = "ok"
                                 /\ Len(r.r[2][2]) = Cardinality(W)
                                 /\ Texts(r.r[2]) = {Str(Join(x, "/")) : x \in W}, <<"glob", pat, g, r, W>>)
LsLaw(g) == \A x \in DOMAIN g.t : g.t[x] = <<"dir">> =>
    LET r == ListDir(g, Abs(g, x), "") IN Assert(r.r[1] = "ok" /\ Len(r.r[2][2]) = Cardinality(Children(g, x))
        /\ {e[2] : e \in Texts(r.r[2])} = {y[Len(y)] : y \in {z \in DOMAIN g.t : Len(z) = Len(x) + 1 /\ IsPrefix(x, z)}}, <<"ls", x, g, r>>)
\* The tree's leaves and inner maps, by path.
RECURSIVE Drawn(_, _)
Drawn(m, at) == UNION {LET e == m[2][i] IN
                       IF e[1] \in {".", ".."} THEN {}
                       ELSE {<<Append(at, e[1]), IF e[2][1] = "map" THEN "dir" ELSE "file">>} \cup (IF e[2][1] = "map" THEN Drawn(e[2], Append(at, e[1])) ELSE {})
                       : i \in 1..Len(m[2])}
TreeLaw(g) == \A d \in -1..MaxLevel :
    LET m == TreeOf(g, "/r", <<>>, d) IN
    Assert(Drawn(m, <<>>) = {<<x, g.t[x][1]>> : x \in {y \in DOMAIN g.t \ {<<>>} : d < 0 \/ Len(y) <= d}}, <<"tree", d, g, m>>)

Init == f = [root |-> <<"r">>, t |-> <<>> :> <<"dir">>]
\* Grow the tree by a node, and look at every tree there is.
Grow == \E x \in DOMAIN f.t, n \in Names0, k \in {<<"dir">>, <<"file", Str("")>>} :
    /\ f.t[x] = <<"dir">> /\ Append(x, n) \notin DOMAIN f.t /\ Len(x) < MaxLevel /\ Cardinality(DOMAIN f.t) <= MaxNodes
    /\ f' = [f EXCEPT !.t = (Append(x, n) :> k) @@ @]
Next == Grow \/ (GlobLaw(f) /\ LsLaw(f) /\ TreeLaw(f) /\ UNCHANGED f)
Spec == Init /\ [][Next]_vars
=============================================================================
