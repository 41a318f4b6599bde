------------------------------ MODULE DesignTerm ------------------------------
(***************************************************************************)
(* Texts are styled and written to a terminal: on its screen stands what   *)
(* the functions promise.  A state is a terminal and a text which is       *)
(* about to be written.                                                    *)
(***************************************************************************)
EXTENDS DuneTerm, DuneEval
CONSTANT MaxLen
VARIABLES T, text
vars == <<T, text>>
Letters == {"m", "é", NL, "0"}
S0 == [e |-> [b |-> "CWD" :> Str("/r"), base |-> DOMAIN Base], o |-> "", l |-> IntV(0), n |-> 0,
       f |-> [root |-> <<"r">>, t |-> (<<>> :> <<"dir">>)], p |-> "/r", x |-> EmptyB, i |-> <<>>]
Written(id, args) == Ev(App(Bi(id), args), S0, 0).s.o
Styled(id, x) == LibFn(id, <<Str(x)>>)[2][2]

Init == T = Blank /\ text = ""
Next == \/ Len(text) < MaxLen /\ T' = T /\ \E c \in Letters : text' = text \o c
        \/ text # "" /\ Len(text) < 3 /\ Contains(text, "é") /\ text' = "" /\ T.row < 2 /\ DOMAIN T.cells = {} /\
             \E id \in {"fmt@red", "fmt@bold", ""} : T' = Read(T, IF id = "" THEN text ELSE Styled(id, text))
Spec == Init /\ [][Next]_vars

OneLine == ~Contains(text, NL)
New(U) == [x \in {y \in DOMAIN U.cells : y \notin DOMAIN T.cells \/ U.cells[y] # T.cells[y]} |-> U.cells[x]]
Keeps(U, fs) == \A f \in DOMAIN T \ fs : U[f] = T[f]

\* A styled text is the text, each character in that style, and nothing after it.
StyleLaw == \A id \in DOMAIN StyleOf :
    LET x == Styled(id, text)
        U == Read(T, x)
        V == Read(T, text)
    IN /\ DOMAIN U.cells = DOMAIN V.cells /\ U.row = V.row /\ U.col = V.col
       /\ \A c \in DOMAIN New(U) : U.cells[c][1] = V.cells[c][1] /\ U.cells[c][2] = T.style \cup {StyleOf[id]}
       /\ U.style = {} /\ U.title = T.title /\ U.shown = T.shown /\ U.link = T.link
       /\ Styled("fmt@strip", x) = text
       /\ \A jd \in {"fmt@bold", "fmt@dark@blue", id} :
            LET y == Styled(jd, x)
                W == Read(T, y)
            IN /\ \A c \in DOMAIN New(W) : W.cells[c][2] = T.style \cup {StyleOf[id], StyleOf[jd]}
               /\ W.style = {} /\ Styled("fmt@strip", y) = text
Distinct == /\ \A i \in DOMAIN StyleOf : \A j \in DOMAIN StyleOf : StyleOf[i] = StyleOf[j] => i = j
            /\ StyleOf["fmt@bold"] = "1" /\ StyleOf["fmt@dark@red"] = "31" /\ StyleOf["fmt@red"] = "91" /\ StyleOf["fmt@dark@white"] = "37"
HrefLaw == OneLine =>
    LET U == Read(T, LibFn("fmt@href", <<Str("http://x"), Str(text)>>)[2][2])
    IN \A c \in DOMAIN New(U) : U.cells[c] = <<Ch(text, c[2] - T.col + 1), T.style, "http://x">> /\ U.link = "" /\ U.col = T.col + Len(text)
\* Writing at a place leaves the cursor where it is, and the rest of the screen.
WriteLaw == \A x, y \in 1..3 :
    LET U == Read(T, Written("console@write", <<IntV(x), IntV(y), Str(text)>>))
        ls == LinesOf(text)
        at == {<<y + i - 1, x + j - 1>> : i \in 1..Len(ls), j \in 1..(2 * MaxLen)}
    IN /\ Keeps(U, {"cells", "saved"})
       /\ \A c \in DOMAIN U.cells \cup DOMAIN T.cells :
            LET i == c[1] - y + 1
                j == c[2] - x + 1
            IN IF i \in 1..Len(ls) /\ j \in 1..Len(ls[i]) THEN U.cells[c] = <<Ch(ls[i], j), T.style, T.link>>
               ELSE c \in DOMAIN T.cells /\ U.cells[c] = T.cells[c]
       /\ \A i \in 1..Len(ls) : \A j \in 1..Len(ls[i]) : <<y + i - 1, x + j - 1>> \in DOMAIN U.cells
MoveLaw == text = "" => \A n \in 1..3 :
    LET To(id) == Read(T, Written(id, <<IntV(n)>>))
        P(U) == <<U.row, U.col>>
    IN /\ P(To("console@cursor@move-up")) = <<Max2(1, T.row - n), T.col>>
       /\ P(To("console@cursor@move-down")) = <<T.row + n, T.col>>
       /\ P(To("console@cursor@move-left")) = <<T.row, Max2(1, T.col - n)>>
       /\ P(To("console@cursor@move-right")) = <<T.row, T.col + n>>
       /\ \A id \in DOMAIN Moves : Keeps(To(id), {"row", "col"})
       /\ \A m \in 1..3 : LET U == Read(T, Written("console@cursor@move-to", <<IntV(n), IntV(m)>>)) IN P(U) = <<m, n>> /\ Keeps(U, {"row", "col"})
ModeLaw == text = "" =>
    LET Do(U, id) == Read(U, Written(id, IF id = "console@clear" THEN <<NoneV>> ELSE <<>>))
        away == Read(Do(T, "console@cursor@save-position"), Written("console@cursor@move-to", <<IntV(7), IntV(8)>>))
    IN /\ LET U == Do(T, "console@clear") IN U.cells = <<>> /\ <<U.row, U.col>> = <<1, 1>> /\ Keeps(U, {"cells", "row", "col"})
       /\ Keeps(Do(away, "console@cursor@restore-position"), {"saved"})
       /\ Do(T, "console@cursor@hide") = [T EXCEPT !.shown = FALSE]
       /\ Do(Do(T, "console@cursor@hide"), "console@cursor@show") = [T EXCEPT !.shown = TRUE]
       /\ Do(T, "console@mode@alternate") = [T EXCEPT !.other = TRUE]
       /\ Do(Do(T, "console@mode@alternate"), "console@mode@normal") = [T EXCEPT !.other = FALSE]
TitleLaw == OneLine => LET U == Read(T, Written("console@title", <<Str(text)>>)) IN U.title = text /\ Keeps(U, {"title", "style"})
=============================================================================
