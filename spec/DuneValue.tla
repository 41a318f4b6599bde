----------------------------- MODULE DuneValue -----------------------------
(***************************************************************************)
(* Values of Dune, which are its expressions: the trees of DuneParse plus  *)
(*   <<"lam", parameter, body, E>>   a function with what it captured      *)
(*   <<"bi", name, id>>              a builtin                             *)
(* E is [b |-> names to values, base |-> whether the names the shell       *)
(* starts with are visible beneath]; an undefined name hides a base name.  *)
(*                                                                         *)
(* What the specification leaves open is a wildcard: <<"any">>, a text     *)
(* with the character Unk, a float <<"fx", Unk>>, and the choices of the   *)
(* random functions <<"oneof", items>>, <<"perm", items>>,                 *)
(* <<"between", low, high>>, a widget <<"wid", title, text, width,         *)
(* height>>, a wrapped text <<"wrap", text, columns>> and a float near a   *)
(* number, <<"about", its text, decimals that count>>.  Fits says which    *)
(* observed values they allow.                                             *)
(***************************************************************************)
EXTENDS DuneDiag

Unk == "⁇"
NoneV == <<"none">>
AnyV == <<"any">>
Str(t) == <<"str", t>>
BoolV(b) == <<"bool", b>>
ListV(xs) == <<"list", xs>>
MapV(ps) == <<"map", ps>>
TruthV == [T |-> BoolV(TRUE), F |-> BoolV(FALSE)]
IsUnk(t) == Contains(t, Unk)
UnkFx == <<"fx", Unk>>
Open == {"any", "oneof", "perm", "between", "wid", "wrap", "gen", "about"}

\* The direct sub-expressions.
Kids(v) == CASE v[1] \in {"list", "do"} -> v[2]
             [] v[1] = "map" -> [i \in 1..Len(v[2]) |-> v[2][i][2]]
             [] v[1] \in {"grp", "quo"} -> <<v[2]>>
             [] v[1] \in {"asg", "lam", "mac"} -> <<v[3]>>
             [] v[1] = "for" -> <<v[3], v[4]>>
             [] v[1] = "if" -> <<v[2], v[3], v[4]>>
             [] v[1] = "app" -> <<v[2]>> \o v[3]
             [] OTHER -> <<>>

\* No part of it is left open.
RECURSIVE Clear(_)
Clear(v) == CASE v[1] \in Open -> FALSE
              [] v[1] = "str" -> ~IsUnk(v[2])
              [] v[1] = "fx" -> v[2] # Unk
              [] v[1] \in {"int", "big", "flt", "bool", "none", "sym", "bi", "bytes", "lam", "mac"} -> TRUE
              [] OTHER -> \A i \in DOMAIN Kids(v) : Clear(Kids(v)[i])
RECURSIVE HasFn(_)
HasFn(v) == IF v[1] \in {"lam", "bi"} THEN TRUE ELSE \E i \in DOMAIN Kids(v) : HasFn(Kids(v)[i])

-----------------------------------------------------------------------------
(* Texts of values. *)
DebugOf == [c \in {p[1] : p \in Range(Uni.debug)} |-> (CHOOSE p \in Range(Uni.debug) : p[1] = c)[2]]
RECURSIVE EscapeR(_, _, _)
EscapeR(t, i, acc) == IF i > Len(t) THEN acc
                      ELSE EscapeR(t, i + 1, acc \o (IF Ch(t, i) \in DOMAIN DebugOf THEN DebugOf[Ch(t, i)]
                                                     ELSE Ch(t, i)))
DebugStr(t) == DQ \o EscapeR(t, 1, "") \o DQ

RECURSIVE FracText(_)
FracText(r) == IF r = 0 THEN "" ELSE NatText((r * 10) \div 1024) \o FracText((r * 10) % 1024)
FltText(k) == IF k < 0 THEN "-" \o NatText((-k) \div 1024) \o (IF k % 1024 = 0 THEN "" ELSE "." \o FracText((-k) % 1024))
              ELSE NatText(k \div 1024) \o (IF k % 1024 = 0 THEN "" ELSE "." \o FracText(k % 1024))
RECURSIVE Noughts(_)
Noughts(n) == IF n <= 0 THEN "" ELSE "0" \o Noughts(n - 1)
\* The same number without an exponent.
Expanded(t) ==
    LET neg == Ch(t, 1) = "-"
        u == IF neg THEN SubSeq(t, 2, Len(t)) ELSE t
        at == CHOOSE i \in 1..Len(u) : Ch(u, i) = "e"
        ds == Ch(u, 1) \o (IF at > 2 THEN SubSeq(u, 3, at - 1) ELSE "")
        down == Ch(u, at + 1) = "-"
        n == NatOfDigits(u, IF down THEN at + 2 ELSE at + 1, 0)
    IN (IF neg THEN "-" ELSE "")
       \o (IF down THEN "0." \o Noughts(n - 1) \o ds
           ELSE IF Len(ds) <= n + 1 THEN ds \o Noughts(n + 1 - Len(ds))
           ELSE SubSeq(ds, 1, n + 1) \o "." \o SubSeq(ds, n + 2, Len(ds)))
FxText(t) == IF t = "-0.0" THEN "-0" ELSE IF Contains(t, "e") THEN Expanded(t) ELSE
             IF EndsWith(t, ".0") THEN SubSeq(t, 1, Len(t) - 2) ELSE t

RECURSIVE JoinR(_, _, _)
JoinR(ts, sep, i) == IF i > Len(ts) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o ts[i] \o JoinR(ts, sep, i + 1)
Join(ts, sep) == JoinR(ts, sep, 1)

RECURSIVE Dbg(_)
Dbgs(vs) == [i \in 1..Len(vs) |-> Dbg(vs[i])]
Dbg(v) == CASE v[1] = "quo" -> "'" \o Dbg(v[2])
            [] v[1] = "grp" -> "(" \o Dbg(v[2]) \o ")"
            [] v[1] = "sym" -> v[2]
            [] v[1] \in {"int", "big"} -> IntText(v)
            [] v[1] = "flt" -> FltText(v[2])
            [] v[1] = "fx" -> FxText(v[2])
            [] v[1] = "bytes" -> "b[" \o Join([i \in 1..Len(v[2]) |-> NatText(v[2][i])], ", ") \o "]"
            [] v[1] = "str" -> DebugStr(v[2])
            [] v[1] = "bool" -> IF v[2] THEN "True" ELSE "False"
            [] v[1] = "list" -> "[" \o Join(Dbgs(v[2]), ", ") \o "]"
            [] v[1] = "map" -> "{" \o Join([i \in 1..Len(v[2]) |-> v[2][i][1] \o ": " \o Dbg(v[2][i][2])], ", ") \o "}"
            [] v[1] = "none" -> "None"
            [] v[1] = "lam" -> v[2] \o " -> " \o Dbg(v[3])
            [] v[1] = "mac" -> v[2] \o " ~> " \o Dbg(v[3])
            [] v[1] = "for" -> "for " \o v[2] \o " in " \o Dbg(v[3]) \o " " \o Dbg(v[4])
            [] v[1] = "do" -> "{ " \o Join(Dbgs(v[2]), "; ") \o " }"
            [] v[1] = "asg" -> "let " \o v[2] \o " = " \o Dbg(v[3])
            [] v[1] = "if" -> "if " \o Dbg(v[2]) \o " " \o Dbg(v[3]) \o " else " \o Dbg(v[4])
            [] v[1] = "app" -> Dbg(v[2]) \o " " \o Join(Dbgs(v[3]), " ")
            [] v[1] = "bi" -> "builtin@" \o v[2]
            [] OTHER -> Unk

DwOf == [c \in {p[1] : p \in Range(Uni.dw)} |-> (CHOOSE p \in Range(Uni.dw) : p[1] = c)[2]]
RECURSIVE DispWidthR(_, _, _)
DispWidthR(t, i, acc) == IF i > Len(t) THEN acc
                         ELSE DispWidthR(t, i + 1, acc + (IF Ch(t, i) \in DOMAIN DwOf THEN DwOf[Ch(t, i)] ELSE 1))
DispWidth(t) == DispWidthR(t, 1, 0)

(* Lines of a text, as Rust has them. *)
RECURSIVE SplitR(_, _, _, _, _)
SplitR(t, sep, a, i, acc) ==
    IF i + Len(sep) - 1 > Len(t) THEN Append(acc, SubSeq(t, a, Len(t)))
    ELSE IF SubSeq(t, i, i + Len(sep) - 1) = sep
    THEN SplitR(t, sep, i + Len(sep), i + Len(sep), Append(acc, SubSeq(t, a, i - 1)))
    ELSE SplitR(t, sep, a, i + 1, acc)
SplitOn(t, sep) == IF sep = "" THEN <<"">> \o Chars(t) \o <<"">> ELSE SplitR(t, sep, 1, 1, <<>>)
DropCr(t) == IF Len(t) > 0 /\ Ch(t, Len(t)) = CR THEN SubSeq(t, 1, Len(t) - 1) ELSE t
LinesOf(t) == LET ps == SplitOn(t, NL)
                  n  == Len(ps)
              IN TLCEval([i \in 1..(IF ps[n] = "" THEN n - 1 ELSE n) |-> IF i < n THEN DropCr(ps[i]) ELSE ps[i]])

RECURSIVE Rep(_, _)
Rep(t, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN t
             ELSE LET h == Rep(t, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN t ELSE "")

MaxIn(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

\* A frame around rows of cells; all rows have as many cells.
Frame(rows, v, top, mid, bot) ==
    LET cells == TLCEval([r \in 1..Len(rows) |-> TLCEval([c \in 1..Len(rows[r]) |-> LinesOf(rows[r][c])])])
        cols  == IF rows = <<>> THEN 0 ELSE Len(rows[1])
        colw  == TLCEval([c \in 1..cols |-> MaxIn(UNION {{DispWidth(cells[r][c][k]) : k \in 1..Len(cells[r][c])} : r \in 1..Len(rows)})])
        \* <<left, fill, cross, right>>
        Rule(p) == p[1] \o Join([c \in 1..cols |-> Rep(p[2], colw[c] + 2)], p[3]) \o p[4] \o NL
        Line(r, k) == v \o Join([c \in 1..cols |->
                          LET x == IF k <= Len(cells[r][c]) THEN cells[r][c][k] ELSE ""
                          IN " " \o x \o Rep(" ", colw[c] - DispWidth(x) + 1)], v) \o v \o NL
        Height(r) == Max2(1, MaxIn({Len(cells[r][c]) : c \in 1..cols}))
        RowText(r) == Concat(TLCEval([k \in 1..Height(r) |-> Line(r, k)]))
    IN Rule(top) \o Join([r \in 1..Len(rows) |-> RowText(r)], Rule(mid)) \o Rule(bot)

RECURSIVE DispIn(_, _), ListText(_, _), MapText(_, _)
ListText(v, w) ==
    LET cells == TLCEval([i \in 1..Len(v[2]) |-> IF v[2][i][1] = "str" THEN DebugStr(v[2][i][2]) ELSE DispIn(v[2][i], 120)])
        Size(t) == IF Contains(t, NL) THEN ByteLen(LinesOf(t)[1]) ELSE ByteLen(t)
        RECURSIVE Total(_)
        Total(i) == IF i = 0 THEN 1 ELSE Size(cells[i]) + 1 + Total(i - 1)
    IN IF \E i \in DOMAIN cells : IsUnk(cells[i]) THEN Unk
       ELSE IF Total(Len(cells)) > w THEN Dbg(v)
       ELSE Frame(<<cells>>, "┃", <<"┏", "━", "┳", "┓">>, <<"┣", "━", "╋", "┫">>, <<"┗", "━", "┻", "┛">>)
MapText(v, w) ==
    LET Cell(k, x) ==
          CASE x[1] = "bi" -> Unk
            [] x[1] = "map" -> DispIn(x, w)
            [] x[1] = "list" -> LET lw == Max2(1, w - (ByteLen(k) + 3))
                                    t  == DispIn(x, lw)
                                IN IF IsUnk(t) \/ \E l \in Range(LinesOf(t)) : DispWidth(l) > lw THEN Unk ELSE t
            [] OTHER -> LET t == Dbg(x)
                        IN IF ByteLen(t) >= w \div 3 \/ (t # "" /\ Ch(t, Len(t)) = " ") THEN Unk ELSE t
        rows == TLCEval([i \in 1..Len(v[2]) |-> <<v[2][i][1], Cell(v[2][i][1], v[2][i][2])>>])
    IN IF \E i \in DOMAIN rows : IsUnk(rows[i][2]) \/ IsUnk(rows[i][1]) THEN Unk
       ELSE Frame(rows, "│", <<"╒", "═", "╤", "╕">>, <<"├", "─", "┼", "┤">>, <<"└", "─", "┴", "┘">>)
DispIn(v, w) == CASE v[1] = "str" -> v[2]
                  [] v[1] = "list" -> ListText(v, w)
                  [] v[1] = "map" -> MapText(v, w)
                  [] OTHER -> Dbg(v)
\* The text a value is printed as.
Disp(v) == DispIn(v, 120)

-----------------------------------------------------------------------------
(* Truth, equality and order; "?" when it is left open. *)
Truthy(v) == CASE v[1] = "int" -> IF v[2] # 0 THEN "T" ELSE "F"
               [] v[1] = "big" -> "T"
               [] v[1] = "flt" -> IF v[2] # 0 THEN "T" ELSE "F"
               [] v[1] = "fx" -> IF v[2] = Unk THEN "?" ELSE IF v[2] = "-0.0" THEN "F" ELSE "T"
               [] v[1] = "str" -> IF v[2] = "" THEN "F" ELSE IF Len(SelectSeq(Chars(v[2]), LAMBDA c : c # Unk)) > 0 THEN "T" ELSE "?"
               [] v[1] \in {"bytes", "list", "map"} -> IF v[2] = <<>> THEN "F" ELSE "T"
               [] v[1] = "bool" -> IF v[2] THEN "T" ELSE "F"
               [] v[1] \in {"lam", "mac", "bi"} -> "T"
               [] v[1] = "perm" -> IF v[2] = <<>> THEN "F" ELSE "T"
               [] v[1] \in Open -> "?"
               [] OTHER -> "F"

Flt0(v) == IF v = <<"fx", "-0.0">> THEN <<"flt", 0>> ELSE v
IsFlt(v) == v[1] \in {"flt", "fx"}
AllOf(rs) == IF "F" \in rs THEN "F" ELSE IF "?" \in rs THEN "?" ELSE "T"
RECURSIVE EqV(_, _)
EqV(x, y) ==
    LET a == Flt0(x)
        b == Flt0(y)
    IN IF a[1] \in Open \/ b[1] \in Open THEN "?"
       ELSE IF a[1] # b[1] THEN IF IsFlt(a) /\ IsFlt(b) /\ UnkFx \in {a, b} THEN "?" ELSE "F"
       ELSE CASE a[1] = "str" -> IF IsUnk(a[2]) \/ IsUnk(b[2]) THEN "?" ELSE IF a[2] = b[2] THEN "T" ELSE "F"
              [] a[1] = "fx" -> IF a[2] = Unk \/ b[2] = Unk THEN "?" ELSE IF a[2] = b[2] THEN "T" ELSE "F"
              [] a[1] \in {"list", "do"} -> IF Len(a[2]) # Len(b[2]) THEN "F"
                                   ELSE AllOf({EqV(a[2][i], b[2][i]) : i \in 1..Len(a[2])})
              [] a[1] = "map" -> IF Len(a[2]) # Len(b[2]) \/ \E i \in 1..Len(a[2]) : a[2][i][1] # b[2][i][1] THEN "F"
                                 ELSE AllOf({EqV(a[2][i][2], b[2][i][2]) : i \in 1..Len(a[2])})
              [] a[1] = "bi" -> IF a[2] = b[2] THEN "T" ELSE "F"
              [] a[1] = "lam" -> IF a = b THEN "T" ELSE IF a[2] # b[2] \/ Len(a) # Len(b) THEN "F"
                                 ELSE IF EqV(a[3], b[3]) = "F" THEN "F" ELSE "?"
              [] OTHER -> LET k == Kids(a)
                              m == Kids(b)
                          IN IF k = <<>> THEN IF a = b THEN "T" ELSE "F"
                             ELSE IF Len(k) # Len(m) \/ (a[1] \in {"asg", "mac", "for"} /\ a[2] # b[2]) THEN "F"
                             ELSE AllOf({EqV(k[i], m[i]) : i \in 1..Len(k)})

NatCmp(a, b) == IF a < b THEN "lt" ELSE IF a > b THEN "gt" ELSE "eq"
TextCmp(a, b) == IF a = b THEN "eq" ELSE IF TextLess(a, b) THEN "lt" ELSE "gt"
RECURSIVE CmpV(_, _), CmpSeq(_, _, _)
\* The first difference decides; a prefix comes first.
CmpSeq(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN NatCmp(Len(a), Len(b))
                   ELSE LET c == CmpV(a[i], b[i]) IN IF c = "eq" THEN CmpSeq(a, b, i + 1) ELSE c
\* "lt", "eq", "gt", "no" when there is no order between them
CmpV(x, y) ==
    LET a == Flt0(x)
        b == Flt0(y)
    IN IF a[1] \in Open \/ b[1] \in Open THEN "?"
       ELSE CASE IsInt(a) /\ IsInt(b) -> LET c == ICmp(a, b) IN IF c < 0 THEN "lt" ELSE IF c > 0 THEN "gt" ELSE "eq"
              [] a[1] = "flt" /\ b[1] = "flt" -> NatCmp(a[2], b[2])
              [] IsFlt(a) /\ IsFlt(b) -> "?"
              [] a[1] = "str" /\ b[1] = "str" -> IF IsUnk(a[2]) \/ IsUnk(b[2]) THEN "?" ELSE TextCmp(a[2], b[2])
              [] a[1] = "bytes" /\ b[1] = "bytes" -> CmpSeq([i \in 1..Len(a[2]) |-> IntV(a[2][i])], [i \in 1..Len(b[2]) |-> IntV(b[2][i])], 1)
              [] a[1] = "list" /\ b[1] = "list" -> CmpSeq(a[2], b[2], 1)
              [] a[1] = "map" /\ b[1] = "map" ->
                   LET Flat(m) == [i \in 1..(2 * Len(m)) |-> IF i % 2 = 1 THEN Str(m[(i + 1) \div 2][1]) ELSE m[i \div 2][2]]
                   IN CmpSeq(Flat(a[2]), Flat(b[2]), 1)
              [] OTHER -> "no"

-----------------------------------------------------------------------------
(* Does an observation fit? *)
RECURSIVE Glob(_, _, _), IndexFrom(_, _, _)
\* Where w occurs first in t from i on; 0 if it does not.
IndexFrom(t, w, i) == IF i + Len(w) - 1 > Len(t) THEN 0 ELSE IF SubSeq(t, i, i + Len(w) - 1) = w THEN i ELSE IndexFrom(t, w, i + 1)
\* The pieces of p between Unks occur in t, in order, from i on; the first and
\* last one at its ends.
Glob(ps, t, i) ==
    IF Len(ps) = 1 THEN EndsWith(SubSeq(t, i, Len(t)), ps[1])
    ELSE LET j == IndexFrom(t, ps[1], i) IN j > 0 /\ Glob(Tail(ps), t, j + Len(ps[1]))
FitsText(p, t) == IF p = t THEN TRUE
                  ELSE LET ps == SplitOn(p, Unk)
                       IN Len(ps) > 1 /\ StartsWith(t, ps[1]) /\ Glob(Tail(ps), t, Len(ps[1]) + 1)

BlankChars == {p[1] : p \in {q \in Range(Uni.order) : q[2] \in {9, 10, 11, 12, 13, 32}}} \cup Range(Uni.ws)
NoBlanks(t) == Concat(SelectSeq(Chars(t), LAMBDA c : c \notin BlankChars))
Printable(t) == \A i \in 1..Len(t) : CodeOf[Ch(t, i)] >= 32
\* A rectangle of w by h characters, framed, with the title in the middle of the
\* top border, around the text, in order, until the frame is full.
\* The words of the lines from the i-th on, each with the number of its line.
RECURSIVE PlacedR(_, _, _)
PlacedR(ls, i, acc) == IF i > Len(ls) THEN acc
                       ELSE LET ws == SelectSeq(SplitOn(ls[i], " "), LAMBDA x : x # "")
                            IN PlacedR(ls, i + 1, acc \o [j \in 1..Len(ws) |-> <<ws[j], i>>])
Placed(ls) == PlacedR(ls, 1, <<>>)
\* Plain text of words which fit is wrapped between its words only: every line of the text starts
\* its own row, a line goes on in the next row, and nothing is missing but what did not fit.
KeepsWords(text, rows, n, max) ==
    LET ls == SplitOn(text, NL)
        a  == Placed(ls)
        b  == Placed(rows)
        lines == \A i \in 1..Len(ls) : ls[i] = "" \/ Ch(ls[i], 1) # " "
        Gap(i) == a[i + 1][2] - a[i][2]
    IN (CharSet(text) \subseteq Alnum \cup {" ", NL} /\ lines /\ \A i \in 1..Len(a) : Len(a[i][1]) <= n) =>
       /\ Len(b) <= Len(a)
       /\ \A i \in 1..Len(b) : b[i][1] = a[i][1]
       /\ b # <<>> => b[1][2] = a[1][2]
       /\ \A i \in 1..(Len(b) - 1) : IF Gap(i) = 0 THEN b[i + 1][2] - b[i][2] \in {0, 1} ELSE b[i + 1][2] - b[i][2] = Gap(i)
       /\ Len(b) < Len(a) => IF b = <<>> THEN a[1][2] > max ELSE b[Len(b)][2] + (IF Gap(Len(b)) = 0 THEN 1 ELSE Gap(Len(b))) > max
FitsWidget(title, text, w, h, t) ==
    LET ls == SplitOn(t, NL)
        Side(l) == CharSet(l) \subseteq {"─"}
        left == ((w - 2) - Len(title) + 1) \div 2
        body == Concat([i \in 1..(Len(ls) - 2) |-> ls[i + 1]])
    IN IF ~Printable(Join(SplitOn(title \o text, NL), " ")) THEN TRUE
       ELSE /\ Len(ls) = h
            /\ \A i \in 1..h : Len(ls[i]) = w
            /\ Contains(ls[1], title) /\ Ch(ls[1], 1) = "┌" /\ Ch(ls[1], w) = "┐"
            /\ \E k \in {((w - 2) - Len(title)) \div 2, left} :
                  /\ SubSeq(ls[1], 2 + k, 1 + k + Len(title)) = title
                  /\ Side(SubSeq(ls[1], 2, 1 + k)) /\ Side(SubSeq(ls[1], 2 + k + Len(title), w - 1))
            /\ Ch(ls[h], 1) = "└" /\ Ch(ls[h], w) = "┘" /\ Side(SubSeq(ls[h], 2, w - 1))
            /\ \A i \in 2..(h - 1) : Ch(ls[i], 1) = " "
            /\ StartsWith(NoBlanks(text), NoBlanks(body))
            /\ Len(NoBlanks(body)) = Len(NoBlanks(text)) \/ h < 4 \/ NoBlanks(ls[h - 1]) # "" \/ \E l \in Range(SplitOn(text, NL)) : NoBlanks(l) = ""
            /\ KeepsWords(text, [i \in 1..(h - 2) |-> ls[i + 1]], w - 2, h - 2)
FitsWrap(text, n, t) ==
    /\ KeepsWords(text, SplitOn(t, NL), n, Len(SplitOn(t, NL)) + 1)
    /\ NoBlanks(t) = NoBlanks(text)
    /\ (\A c \in CharSet(text) : c \notin Wide) => \A l \in Range(SplitOn(t, NL)) : Len(l) <= n

\* A decimal text in units of 10^-d: <<negative, the unit's multiple>>, or <<>> when there are too many.
InUnits(t, d) ==
    LET neg == Ch(t, 1) = "-"
        ps == SplitOn(IF neg THEN SubSeq(t, 2, Len(t)) ELSE t, ".")
        frac == IF Len(ps) > 1 THEN ps[2] ELSE ""
        ds == ps[1] \o (IF Len(frac) >= d THEN SubSeq(frac, 1, d) ELSE frac \o Noughts(d - Len(frac)))
        i == SkipIn(ds, 1, {"0"})
    IN IF ~(CharSet(ds) \subseteq Digits) \/ Len(ds) - i + 1 > 9 THEN <<>>
       ELSE LET n == NatOfDigits(ds, i, 0) IN <<IF neg THEN -n ELSE n>>
FitsAbout(t, d, o) ==
    /\ IsFlt(o) /\ o # UnkFx
    /\ LET a == InUnits(IF o[1] = "flt" THEN FltText(o[2]) ELSE FxText(o[2]), d)
           b == InUnits(t, d)
       IN a # <<>> /\ b # <<>> /\ a[1] - b[1] \in -2..2

RECURSIVE Fits(_, _), FitsPerm(_, _)
FitsPerm(xs, os) == IF xs = <<>> THEN os = <<>>
                    ELSE \E j \in 1..Len(os) : Fits(xs[1], os[j])
                            /\ FitsPerm(Tail(xs), SubSeq(os, 1, j - 1) \o SubSeq(os, j + 1, Len(os)))
Fits(v, o) ==
    CASE v[1] = "any" -> TRUE
      [] v[1] = "oneof" -> \E i \in 1..Len(v[2]) : Fits(v[2][i], o)
      [] v[1] = "perm" -> o[1] = "list" /\ Len(o[2]) = Len(v[2]) /\ FitsPerm(v[2], o[2])
      [] v[1] = "between" -> IsInt(o) /\ ICmp(v[2], o) <= 0 /\ ICmp(o, v[3]) < 0
      [] v[1] = "wid" -> o[1] = "str" /\ FitsWidget(v[2], v[3], v[4], v[5], o[2])
      [] v[1] = "wrap" -> o[1] = "str" /\ FitsWrap(v[2], v[3], o[2])
      [] v[1] = "about" -> FitsAbout(v[2], v[3], o)
      [] v[1] = "gen" -> v = o
      [] v[1] = "str" -> o[1] = "str" /\ FitsText(v[2], o[2])
      [] v[1] = "fx" /\ v[2] = Unk -> IsFlt(o)
      [] v[1] = "list" \/ v[1] = "do" -> o[1] = v[1] /\ Len(o[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : Fits(v[2][i], o[2][i])
      [] v[1] = "map" -> o[1] = "map" /\ Len(o[2]) = Len(v[2])
                         /\ \A i \in 1..Len(v[2]) : v[2][i][1] = o[2][i][1] /\ Fits(v[2][i][2], o[2][i][2])
      [] v[1] = "bi" -> o[1] = "bi" /\ o[2] = v[2]
      [] OTHER -> LET k == Kids(v)
                  IN IF k = <<>> THEN v = o
                     ELSE o[1] = v[1] /\ LET m == Kids(o)
                                         IN Len(k) = Len(m) /\ (v[1] \in {"asg", "lam", "mac", "for"} => v[2] = o[2])
                                            /\ \A i \in 1..Len(k) : Fits(k[i], m[i])
\* What is known after observing o: the observation settles what was left open.
Settle(v, o) == IF Clear(v) \/ HasFn(v) \/ HasFn(o) THEN v ELSE o
=============================================================================
