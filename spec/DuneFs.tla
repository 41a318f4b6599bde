------------------------------- MODULE DuneFs -------------------------------
(***************************************************************************)
(* The file tree and what the file functions do to it.                     *)
(*                                                                         *)
(* f = [root |-> the names of the scratch directory from / on,             *)
(*      t |-> sequence of names from there on -> node]                     *)
(* with the nodes <<"dir">>, <<"file", content>>, the content being a text *)
(* or a sequence of bytes, <<"locked">>, a directory the shell may not     *)
(* enter, <<"odd">>, a link to a directory whose name is no text, and      *)
(* <<"link", target>>.  <<>> is the scratch directory itself.  A path      *)
(* which leaves it is not decided here.                                    *)
(***************************************************************************)
EXTENDS DuneLib

\* The value of the contents of a file.
TextFile(t) == <<"file", <<"str", t>> >>
JoinPath(cwd, p) == IF StartsWith(p, "/") THEN p
                    ELSE IF EndsWith(cwd, "/") THEN cwd \o p ELSE cwd \o "/" \o p
Comps(p) == SelectSeq(SplitOn(p, "/"), LAMBDA c : c # "")
\* A last component which only a directory has.
Trailing(p) == EndsWith(p, "/") \/ EndsWith(p, "/.")
PathText(cs) == "/" \o Join(cs, "/")
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Above(cs) == SubSeq(cs, 1, Len(cs) - 1)
LastC(cs) == cs[Len(cs)]

Has(f, at) == at \in DOMAIN f.t
IsDirAt(f, at) == IF Has(f, at) THEN f.t[at][1] = "dir" ELSE FALSE
Abs(f, at) == PathText(f.root \o at)

\* Where a path leads:
\*   <<"at", at>>        to this node
\*   <<"new", at, rest>> to a missing name in an existing directory; rest are further names
\*   <<"notdir">>        through a file as if it were a directory
\*   <<"nofile">>        by a name no file can have
\*   <<"locked", at>>    to a directory the shell may not enter
\*   <<"odd", at>>       to a link to a directory whose name is no text
\*   <<"out">>           out of the scratch directory, or into a locked one
RECURSIVE Walk(_, _, _, _)
\* cur: the names so far, from / on; cs: the names to go
Walk(f, cur, cs, fuel) ==
    LET inside == IsPrefix(f.root, cur)
        rel == SubSeq(cur, Len(f.root) + 1, Len(cur))
        above == IsPrefix(cur, f.root)
        isdir == IF inside THEN IsDirAt(f, rel) ELSE above
    IN IF fuel = 0 \/ (~inside /\ ~above) THEN <<"out">>
       ELSE IF cs = <<>> THEN IF inside THEN <<"at", rel>> ELSE <<"out">>
       ELSE IF ~isdir THEN <<"notdir">>
       ELSE IF cs[1] = "." THEN Walk(f, cur, Tail(cs), fuel - 1)
       ELSE IF cs[1] = ".." THEN IF cur = <<>> THEN <<"out">> ELSE Walk(f, Above(cur), Tail(cs), fuel - 1)
       ELSE IF ByteLen(cs[1]) > 255 THEN <<"nofile">>
       ELSE LET next == Append(cur, cs[1])
                at == SubSeq(next, Len(f.root) + 1, Len(next))
            IN IF ~inside THEN Walk(f, next, Tail(cs), fuel - 1)
               ELSE IF ~Has(f, at) THEN <<"new", at, Tail(cs)>>
               ELSE IF f.t[at][1] = "link"
               THEN LET tgt == f.t[at][2]
                    IN Walk(f, IF StartsWith(tgt, "/") THEN <<>> ELSE cur, Comps(tgt) \o Tail(cs), fuel - 1)
               ELSE IF f.t[at][1] \in {"locked", "odd"} THEN IF Tail(cs) = <<>> THEN <<f.t[at][1], at>> ELSE <<"out">>
               ELSE Walk(f, next, Tail(cs), fuel - 1)
Look(f, path) == IF ~StartsWith(path, "/") THEN <<"out">> ELSE IF Contains(path, NUL) THEN <<"nofile">>
                 ELSE Walk(f, <<>>, Comps(path) \o (IF Trailing(path) THEN <<".">> ELSE <<>>), 60)
Find(f, path) == LET w == Look(f, path) IN IF w[1] \in {"locked", "odd"} THEN <<"out">> ELSE w
\* The path names a symbolic link itself.
Plain(path) == Comps(path) \o <<>>
ThroughLink(f, path) ==
    LET up == Walk(f, <<>>, Above(Comps(path)), 60)
    IN IF Comps(path) = <<>> THEN FALSE
       ELSE IF up[1] # "at" THEN FALSE
       ELSE LET at == Append(up[2], LastC(Comps(path)))
            IN IF Has(f, at) THEN f.t[at][1] = "link" ELSE FALSE
\* The way leads through a link to nowhere.
Dangling(f, path) == \E k \in 1..Len(Comps(path)) :
    LET p == PathText(SubSeq(Comps(path), 1, k)) IN ThroughLink(f, p) /\ Find(f, p)[1] # "at"

Restrict(t, S) == [x \in S |-> t[x]]
Below(f, at) == {x \in DOMAIN f.t : IsPrefix(at, x)}
Put(f, at, node) == [f EXCEPT !.t = (at :> node) @@ f.t]
Cut(f, at) == [f EXCEPT !.t = Restrict(f.t, DOMAIN f.t \ Below(f, at))]
Moved(f, a, b) == LET moved == [x \in {b \o SubSeq(y, Len(a) + 1, Len(y)) : y \in Below(f, a)} |->
                                  f.t[a \o SubSeq(x, Len(b) + 1, Len(x))]]
                  IN moved
RECURSIVE MkDirs(_, _)
MkDirs(f, at) == IF at = <<>> THEN f
                 ELSE LET g == MkDirs(f, Above(at)) IN IF Has(g, at) THEN g ELSE Put(g, at, <<"dir">>)

Children(f, at) == {x \in DOMAIN f.t : Len(x) = Len(at) + 1 /\ IsPrefix(at, x)}
RECURSIVE SortNames(_)
SortNames(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ TextLess(x, y)
                     IN <<m>> \o SortNames(S \ {m})
Names(f, at) == SortNames({LastC(x) : x \in Children(f, at)})
\* Components as a path is compared with another one.
SamePath(a, b) == SelectSeq(Comps(a), LAMBDA c : c # ".") = SelectSeq(Comps(b), LAMBDA c : c # ".")

\* An answer: the tree afterwards and a result as in DuneLib.
FOk(f, v) == [f |-> f, r |-> OkV(v)]
FErr(f, m) == [f |-> f, r |-> Bad(m)]
FOut(f) == [f |-> f, r |-> Out]
HasLinks(f, at) == \E x \in Below(f, at) : f.t[x][1] = "link"

\* Long data is <<"gen", n>>: the first n characters of this again and again.
GenText == "0123456789abcdef"
Gen(n) == IF n >= 4096 THEN <<"gen", n>> ELSE Str(IF n = 0 THEN "" ELSE SubSeq(Rep(GenText, (n \div 16) + 1), 1, n))
Size(d) == CASE d[1] = "str" -> ByteLen(d[2]) [] d[1] = "bytes" -> Len(d[2]) [] OTHER -> d[2]
IsGen(d) == IF d[1] = "gen" THEN TRUE ELSE Size(d) < 4096 /\ d = Gen(Size(d))
\* One content after the other, or <<"out">>.
Cat(a, b) == IF a = Str("") THEN b ELSE IF b = Str("") THEN a
             ELSE IF (a[1] = "gen" \/ b[1] = "gen" \/ Size(a) + Size(b) >= 4096) /\ IsGen(a) /\ IsGen(b) /\ Size(a) % 16 = 0 THEN Gen(Size(a) + Size(b))
             ELSE IF a[1] = b[1] /\ a[1] # "gen" THEN <<a[1], a[2] \o b[2]>> ELSE <<"out">>
Content(v) == IF v[1] \in {"bytes", "gen"} THEN v ELSE Str(Disp(v))
WriteFile(f, path, name, v) ==
    LET w == Find(f, path)
    IN CASE w[1] = "out" -> FOut(f)
         [] w[1] = "at" /\ f.t[w[2]][1] = "file" -> FOk(Put(f, w[2], <<"file", Content(v)>>), NoneV)
         [] w[1] = "new" /\ w[3] = <<>> -> IF ThroughLink(f, path) THEN FOut(f) ELSE FOk(Put(f, w[2], <<"file", Content(v)>>), NoneV)
         [] OTHER -> FErr(f, "could not write to file " \o name \o ": " \o Unk)
CanAppend(f, path) == LET w == Find(f, path)
                      IN IF w[1] = "out" THEN "?" ELSE IF w[1] # "at" THEN "F"
                         ELSE IF f.t[w[2]][1] = "file" THEN "T" ELSE "F"
AppendFile(f, path, v) ==
    LET w == Find(f, path)
        c == Content(v)
    IN IF w[1] # "at" THEN FOut(f)
       ELSE LET new == Cat(f.t[w[2]][2], c)
            IN IF new = <<"out">> THEN FOut(f) ELSE FOk(Put(f, w[2], <<"file", new>>), NoneV)

\* What reading a file gives: text, or the bytes when it is not one.
ReadFile(f, path, name) ==
    LET w == Find(f, path)
    IN CASE w[1] = "out" -> FOut(f)
         [] w[1] = "at" /\ f.t[w[2]][1] = "file" -> FOk(f, f.t[w[2]][2])
         [] OTHER -> FErr(f, "could not read file " \o name)
\* A file as text.
ReadText(f, path) ==
    LET w == Find(f, path)
    IN CASE w[1] = "out" -> Out
         [] w[1] = "at" /\ f.t[w[2]][1] = "file" -> IF f.t[w[2]][2][1] = "str" THEN OkV(f.t[w[2]][2]) ELSE Bad("")
         [] OTHER -> Bad("")
FirstLines(ls, n) == Concat([i \in 1..Min2(Len(ls), n) |-> ls[i] \o NL])
SomeLines(f, path, name, end, n) ==
    LET r == ReadText(f, path)
        k == IF n[1] = "big" THEN IF n[2] < 0 THEN 0 ELSE 1000000 ELSE Max2(0, n[2])
    IN IF r[1] = "skip" THEN FOut(f)
       ELSE IF r[1] = "err" THEN FErr(f, "could not read file " \o name)
       ELSE IF IsUnk(r[2][2]) THEN FOut(f)
       ELSE LET ls == LinesOf(r[2][2])
            IN FOk(f, Str(FirstLines(IF end = "head" THEN ls ELSE SubSeq(ls, Max2(0, Len(ls) - k) + 1, Len(ls)), k)))

MakeDir(f, path) ==
    LET w == Find(f, path)
    IN CASE w[1] = "out" -> FOut(f)
         [] w[1] = "at" /\ f.t[w[2]][1] = "dir" -> FOk(f, NoneV)
         [] w[1] = "new" -> IF Dangling(f, path) \/ \E i \in 1..Len(w[3]) : w[3][i] = ".." \/ ByteLen(w[3][i]) > 255 THEN FOut(f)
                            ELSE FOk(MkDirs(f, w[2] \o SelectSeq(w[3], LAMBDA c : c # ".")), NoneV)
         [] OTHER -> FErr(f, "could not create directory " \o path)
RemoveDir(f, path, here) ==
    LET w == Find(f, path)
        bad == FErr(f, "could not remove directory " \o path \o ", is it empty?")
    IN CASE w[1] = "out" -> FOut(f)
         [] w[1] = "at" /\ f.t[w[2]][1] = "dir" ->
              IF LastC(Comps(path)) \in {".", ".."} \/ Children(f, w[2]) # {} THEN bad
              ELSE IF w[2] = <<>> \/ IsPrefix(f.root \o w[2], Comps(here)) \/ ThroughLink(f, path) THEN FOut(f)
              ELSE FOk(Cut(f, w[2]), NoneV)
         [] OTHER -> bad
Remove(f, path, here) ==
    LET w == Find(f, path)
        cs == SelectSeq(Comps(path), LAMBDA c : c # ".")
    IN CASE w[1] = "out" -> FOut(f)
         [] ThroughLink(f, path) -> FOut(f)
         [] w[1] = "at" /\ f.t[w[2]][1] = "dir" ->
              IF LastC(cs) = ".." THEN FErr(f, "could not remove directory " \o path)
              ELSE IF w[2] = <<>> \/ IsPrefix(f.root \o w[2], Comps(here)) THEN FOut(f)
              ELSE FOk(Cut(f, w[2]), NoneV)
         [] w[1] = "at" -> FOk(Cut(f, w[2]), NoneV)
         [] OTHER -> FErr(f, "could not remove file " \o path)

Exists(f, path) == LET w == Find(f, path) IN IF w[1] = "out" THEN "?" ELSE IF w[1] = "at" THEN "T" ELSE "F"
Rename(f, src, dst, here) ==
    LET a == Find(f, src)
        b == Find(f, dst)
        bad == FErr(f, "could not move " \o src \o " to " \o dst)
    IN IF SamePath(src, dst) THEN FOk(f, NoneV)
       ELSE IF b[1] = "out" THEN FOut(f)
       ELSE IF b[1] = "at" THEN FErr(f, "destination " \o dst \o " already exists")
       ELSE IF a[1] = "out" \/ ThroughLink(f, src) \/ ThroughLink(f, dst) THEN FOut(f)
       ELSE IF a[1] # "at" \/ b[1] # "new" THEN bad
       ELSE IF SelectSeq(b[3], LAMBDA c : c # ".") # <<>> THEN bad
       ELSE LET isdir == f.t[a[2]][1] = "dir"
            IN IF LastC(Comps(src)) \in {".", ".."} THEN bad
               ELSE IF b[3] # <<>> /\ (~EndsWith(dst, "/") \/ ~isdir) THEN bad
               ELSE IF IsPrefix(a[2], b[2]) THEN bad
               ELSE IF a[2] = <<>> \/ IsPrefix(f.root \o a[2], Comps(here)) THEN FOut(f)
               ELSE LET m == Moved(f, a[2], b[2]) IN FOk([f EXCEPT !.t = m @@ Cut(f, a[2]).t], NoneV)
\* The longest existing part of a path, resolved.
RECURSIVE Existing(_, _)
Existing(f, cs) == LET w == Walk(f, <<>>, cs, 60)
                   IN IF w[1] = "at" \/ cs = <<>> THEN w ELSE IF w[1] = "out" THEN w ELSE Existing(f, Above(cs))
Copy(f, src, dst) ==
    LET a == Find(f, src)
        b == Find(f, dst)
        clean == SelectSeq(Comps(dst), LAMBDA c : c # ".")
        near == Existing(f, Above(clean))
    IN IF SamePath(src, dst) THEN FOk(f, NoneV)
       ELSE IF b[1] = "out" THEN FOut(f)
       ELSE IF b[1] = "at" THEN FErr(f, "destination " \o dst \o " already exists")
       ELSE IF a[1] = "out" \/ ThroughLink(f, dst) THEN FOut(f)
       ELSE IF a[1] = "at" /\ f.t[a[2]][1] = "dir"
       THEN IF HasLinks(f, a[2]) \/ near[1] # "at" \/ Dangling(f, dst) THEN FOut(f)
            ELSE IF IsPrefix(a[2], near[2]) THEN FErr(f, "cannot copy a directory into itself at " \o Abs(f, near[2]))
            ELSE IF b[1] # "new" THEN FErr(f, "could not create directory " \o dst)
            ELSE IF \E i \in 1..Len(b[3]) : b[3][i] = ".." \/ ByteLen(b[3][i]) > 255 THEN FOut(f)
            ELSE LET to == b[2] \o SelectSeq(b[3], LAMBDA c : c # ".")
                     g == MkDirs(f, to)
                 IN FOk([g EXCEPT !.t = Moved(f, a[2], to) @@ g.t], NoneV)
       ELSE IF a[1] # "at" \/ b[1] # "new" \/ (b[1] = "new" /\ b[3] # <<>>)
       THEN FErr(f, "could not copy file " \o src \o " to " \o dst)
       ELSE FOk(Put(f, b[2], f.t[a[2]]), NoneV)

ListDir(f, path, short) ==
    LET w == Find(f, path)
        In(n) == IF short = "" THEN n ELSE IF EndsWith(short, "/") THEN short \o n ELSE short \o "/" \o n
    IN CASE w[1] = "out" -> FOut(f)
         [] w[1] = "at" -> IF f.t[w[2]][1] = "dir"
                           THEN LET ns == Names(f, w[2])
                                IN FOk(f, IF Len(ns) < 2 THEN StrsV([i \in 1..Len(ns) |-> In(ns[i])])
                                          ELSE <<"perm", [i \in 1..Len(ns) |-> Str(In(ns[i]))]>>)
                           ELSE FOk(f, StrsV(<<path>>))
         [] OTHER -> FErr(f, path \o " does not exist")
KindAt(f, path, kinds) ==
    LET w == Find(f, path)
    IN IF w[1] = "out" THEN FOut(f)
       ELSE FOk(f, BoolV(IF w[1] = "at" THEN f.t[w[2]][1] \in kinds ELSE FALSE))
Canon(f, path) == LET w == Find(f, path)
                  IN IF w[1] = "out" THEN FOut(f)
                     ELSE IF w[1] = "at" THEN FOk(f, Str(Abs(f, w[2])))
                     ELSE FErr(f, "could not canonicalize path " \o path)

\* The nested map of a directory, depth levels deep (-1: all).
RECURSIVE TreeOf(_, _, _, _)
TreeOf(f, path, at, depth) ==
    LET up == LET cs == Comps(path) IN IF cs = <<>> THEN "/" ELSE PathText(Above(cs))
        ns == Names(f, at)
        In(n) == IF EndsWith(path, "/") THEN path \o n ELSE path \o "/" \o n
        Node(n) == LET w == Walk(f, f.root \o at, <<n>>, 60)
                   IN IF w[1] = "at" /\ IsDirAt(f, w[2]) THEN TreeOf(f, In(n), w[2], IF depth < 0 THEN depth ELSE depth - 1)
                      ELSE Str(In(n))
        here == << <<".", Str(path)>>, <<"..", Str(up)>> >>
    IN MapV(IF depth = 0 THEN here
            ELSE PutAll(here, [i \in 1..Len(ns) |-> <<ns[i], Node(ns[i])>>]))

(* Patterns: ? is a character, * any, [...] one of a set, [!...] one of no set, ** any directories. *)
ClassEnd(p, i) == \* the place of the bracket which closes the class opened at i, 0 if none does
    LET from == IF Ch(p, i + 1) = "!" THEN i + 3 ELSE i + 2
        z == IF i + 1 > Len(p) \/ from > Len(p) THEN Len(p) + 1 ELSE SkipTo(p, from, {"]"})
    IN IF z > Len(p) THEN 0 ELSE z
\* Ranges and single characters, as pairs.
RECURSIVE ClassItems(_, _)
ClassItems(c, i) == IF i > Len(c) THEN {}
                    ELSE IF i + 2 <= Len(c) /\ Ch(c, i + 1) = "-" THEN {<<Ch(c, i), Ch(c, i + 2)>>} \cup ClassItems(c, i + 3)
                    ELSE {<<Ch(c, i), Ch(c, i)>>} \cup ClassItems(c, i + 1)
NoPattern == << <<"bad">> >>
RECURSIVE Pattern(_, _)
\* The parts of a name's pattern from i on; the last one is <<"bad">> when it is none.
Pattern(p, i) ==
    IF i > Len(p) THEN <<>>
    ELSE CASE Ch(p, i) = "?" -> << <<"one">> >> \o Pattern(p, i + 1)
           [] Ch(p, i) = "*" -> IF i < Len(p) /\ Ch(p, i + 1) = "*" THEN NoPattern ELSE << <<"many">> >> \o Pattern(p, i + 1)
           [] Ch(p, i) = "[" -> LET z == ClassEnd(p, i)
                                    neg == Ch(p, i + 1) = "!"
                                IN IF z = 0 THEN NoPattern
                                   ELSE << <<IF neg THEN "not" ELSE "in", ClassItems(SubSeq(p, IF neg THEN i + 2 ELSE i + 1, z - 1), 1)>> >> \o Pattern(p, z + 1)
           [] OTHER -> << <<"chr", Ch(p, i)>> >> \o Pattern(p, i + 1)
InClass(S, c) == \E r \in S : CodeOf[r[1]] <= CodeOf[c] /\ CodeOf[c] <= CodeOf[r[2]]
RECURSIVE Matches(_, _)
Matches(ps, n) == IF ps = <<>> THEN n = ""
                  ELSE IF ps[1] = <<"many">> THEN \E k \in 0..Len(n) : Matches(Tail(ps), SubSeq(n, k + 1, Len(n)))
                  ELSE /\ n # ""
                       /\ CASE ps[1][1] = "one" -> TRUE
                            [] ps[1][1] = "in" -> InClass(ps[1][2], Ch(n, 1))
                            [] ps[1][1] = "not" -> ~InClass(ps[1][2], Ch(n, 1))
                            [] OTHER -> ps[1][2] = Ch(n, 1)
                       /\ Matches(Tail(ps), SubSeq(n, 2, Len(n)))
\* What the names ps find in the directory at; pre is put before.
RECURSIVE GlobIn(_, _, _, _, _), GlobName(_, _, _, _, _, _)
GlobName(f, at, n, ps, pre, dirs) ==
    LET here == Append(at, n) IN
    IF ps[1] = "**" THEN
         LET dir == IsDirAt(f, here)
         IN (IF Len(ps) = 1 THEN IF dir THEN <<pre \o n>> ELSE <<>> ELSE GlobName(f, at, n, Tail(ps), pre, dirs))
            \o (IF dir THEN GlobIn(f, here, ps, pre \o n \o "/", dirs) ELSE <<>>)
    ELSE IF ~Matches(Pattern(ps[1], 1), n) THEN <<>>
    ELSE IF Len(ps) = 1 THEN IF ~dirs \/ IsDirAt(f, here) THEN <<pre \o n>> ELSE <<>>
    ELSE IF IsDirAt(f, here) THEN GlobIn(f, here, Tail(ps), pre \o n \o "/", dirs) ELSE <<>>
RECURSIVE GlobNames(_, _, _, _, _, _, _)
GlobNames(f, at, ns, i, ps, pre, dirs) == IF i > Len(ns) THEN <<>> ELSE GlobName(f, at, ns[i], ps, pre, dirs) \o GlobNames(f, at, ns, i + 1, ps, pre, dirs)
GlobIn(f, at, ps, pre, dirs) == GlobNames(f, at, Names(f, at), 1, ps, pre, dirs)
RECURSIVE NoRepeats(_, _)
NoRepeats(ps, i) == IF i > Len(ps) THEN <<>> ELSE (IF i < Len(ps) /\ ps[i] = "**" /\ ps[i + 1] = "**" THEN <<>> ELSE <<ps[i]>>) \o NoRepeats(ps, i + 1)
GlobFiles(f, cwd, pat) ==
    LET w == Find(f, cwd)
        all == SplitOn(pat, "/")
        dirs == Len(all) > 1 /\ all[Len(all)] = ""
        ps == NoRepeats(IF dirs THEN SubSeq(all, 1, Len(all) - 1) ELSE all, 1)
        bad == {p \in Range(ps) \ {"**"} : <<"bad">> \in Range(Pattern(p, 1))}
    IN IF w[1] # "at" \/ \E p \in Range(ps) : p = "" \/ Ch(p, 1) = "." THEN FOut(f)
       \* A class might hold a slash.
       ELSE IF bad # {} THEN IF Len(ps) > 1 /\ Contains(pat, "[") THEN FOut(f) ELSE FErr(f, "invalid glob pattern " \o pat \o ": " \o Unk)
       ELSE IF Cardinality({i \in 1..Len(ps) : ps[i] = "**"}) > 1 THEN FOut(f)
       ELSE IF \E x \in DOMAIN f.t : f.t[x][1] \notin {"dir", "file"} THEN FOut(f)
       ELSE FOk(f, StrsV(GlobIn(f, w[2], ps, "", dirs)))
=============================================================================
