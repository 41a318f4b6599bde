------------------------------- MODULE DuneTerm -------------------------------
(***************************************************************************)
(* A terminal: what the text written to it does to its screen.  It says    *)
(* what the control sequences the library writes are for.                  *)
(***************************************************************************)
EXTENDS DuneLib

\* cells: <<row, column>> to <<character, styles, link>>.
Blank == [row |-> 1, col |-> 1, saved |-> <<1, 1>>, style |-> {}, link |-> "", cells |-> <<>>, title |-> "", shown |-> TRUE, other |-> FALSE]
Num(t, none) == IF t = "" THEN none ELSE NatOfDigits(t, 1, 0)
StyleAfter(st, p) == IF p \in {"", "0"} THEN {} ELSE st \cup {p}
Sequence(T, par, final) ==
    LET ps == SplitOn(par, ";")
        n  == Num(ps[1], 1)
    IN CASE final = "m" -> [T EXCEPT !.style = StyleAfter(@, par)]
         [] final \in {"H", "f"} -> [T EXCEPT !.row = n, !.col = IF Len(ps) > 1 THEN Num(ps[2], 1) ELSE 1]
         [] final = "A" -> [T EXCEPT !.row = Max2(1, @ - n)]
         [] final = "B" -> [T EXCEPT !.row = @ + n]
         [] final = "C" -> [T EXCEPT !.col = @ + n]
         [] final = "D" -> [T EXCEPT !.col = Max2(1, @ - n)]
         [] final = "s" -> [T EXCEPT !.saved = <<T.row, T.col>>]
         [] final = "u" -> [T EXCEPT !.row = T.saved[1], !.col = T.saved[2]]
         [] final = "J" /\ par = "2" -> [T EXCEPT !.cells = <<>>]
         [] final \in {"h", "l"} /\ par = "?25" -> [T EXCEPT !.shown = final = "h"]
         [] final \in {"h", "l"} /\ par = "?1049" -> [T EXCEPT !.other = final = "h"]
Command(T, t) == IF StartsWith(t, "2;") THEN [T EXCEPT !.title = SubSeq(t, 3, Len(t))]
                 ELSE LET rest == SubSeq(t, 3, Len(t))
                      IN [T EXCEPT !.link = SubSeq(rest, SkipTo(rest, 1, {";"}) + 1, Len(rest))]
RECURSIVE Reads(_, _, _)
Reads(T, t, i) ==
    IF i > Len(t) THEN T
    ELSE IF HasAt(t, i, ESC \o "[") THEN
         LET z == SkipIn(t, i + 2, Digits \cup {";", "?", "-"})
         IN Reads(Sequence(T, SubSeq(t, i + 2, z - 1), Ch(t, z)), t, z + 1)
    ELSE IF HasAt(t, i, ESC \o "]") THEN
         \* It goes to the next escape character, which ends it together with a backslash, or begins the next sequence.
         LET z == SkipTo(t, i + 2, {ESC})
         IN Reads(Command(T, SubSeq(t, i + 2, z - 1)), t, IF HasAt(t, z, ESC \o BS) THEN z + 2 ELSE z)
    ELSE IF Ch(t, i) = NL THEN Reads([T EXCEPT !.row = @ + 1, !.col = 1], t, i + 1)
    ELSE Reads([T EXCEPT !.cells = (<<T.row, T.col>> :> <<Ch(t, i), T.style, T.link>>) @@ @, !.col = @ + 1], t, i + 1)
Read(T, t) == Reads(T, t, 1)
=============================================================================
