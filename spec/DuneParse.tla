----------------------------- MODULE DuneParse -----------------------------
(***************************************************************************)
(* The grammar of Dune as a parsing expression grammar over the tokens of  *)
(* a text without white space and comments.  A parser applied at a token   *)
(* index gives                                                             *)
(*   [r |-> "ok", p |-> index after, v |-> tree]   it matched              *)
(*   [r |-> "err"]                                 it does not match here  *)
(*   [r |-> "fail", e |-> [i, exp, found, hint]]   the text is wrong: stop *)
(***************************************************************************)
EXTENDS DuneLex, DuneDigits

Ok(p, v) == [r |-> "ok", p |-> p, v |-> v]
Err == [r |-> "err"]
\* found and hint are "" when absent.
Fail(i, exp, found, hint) ==
    [r |-> "fail", e |-> [i |-> i, exp |-> exp, found |-> found, hint |-> hint]]

X(ts, i) == IF i <= Len(ts) THEN ts[i].x ELSE ""
K(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE ""

Sym(s) == <<"sym", s>>
Grp(e) == <<"grp", e>>
App(f, args) == <<"app", f, args>>
BinOp(op, l, r) == Grp(App(Sym(op), <<l, r>>))

Terminating(ts, i) == K(ts, i) = "punct" /\ X(ts, i) \in {";", ",", "=", "]", ")", "}"}

\* The text a string literal token denotes.
RECURSIVE UnescapeR(_, _, _)
UnescapeR(t, i, acc) ==
    IF i > Len(t) \/ Ch(t, i) = DQ THEN acc
    ELSE IF Ch(t, i) # BS THEN UnescapeR(t, i + 1, acc \o Ch(t, i))
    ELSE LET c == Ch(t, i + 1)
         IN IF c = "u"
            THEN LET z == SkipIn(t, i + 3, Hex)
                 IN UnescapeR(t, z + 1, acc \o CharOfCode(HexNum(t, i + 3, z, 0)))
            ELSE UnescapeR(t, i + 2, acc \o (CASE c = "n" -> NL [] c = "t" -> TAB [] c = "r" -> CR
                                               [] c = "f" -> FF [] c = "b" -> CharOfCode(8)
                                               [] OTHER -> c))
Unescape(t) == UnescapeR(t, 2, "")

\* Insertion into a sorted association list; a later binding of the same key wins.
RECURSIVE PutKey(_, _, _)
PutKey(m, k, v) ==
    IF m = <<>> THEN << <<k, v>> >>
    ELSE IF m[1][1] = k THEN << <<k, v>> >> \o Tail(m)
    ELSE IF TextLess(k, m[1][1]) THEN << <<k, v>> >> \o m
    ELSE <<m[1]>> \o PutKey(Tail(m), k, v)
RECURSIVE MapOf(_, _)
MapOf(ps, acc) == IF ps = <<>> THEN acc ELSE MapOf(Tail(ps), PutKey(acc, ps[1][1], ps[1][2]))

RECURSIVE Script(_, _), Statements(_, _, _), Statement(_, _), Expr(_, _), PipeTail(_, _, _),
          Seven(_, _), ForLoop(_, _), IfExpr(_, _), LetExpr(_, _), Callable(_, _), Apply(_, _),
          ApplyOp(_, _), ArgsFrom(_, _, _), Six(_, _), Five(_, _), Four(_, _), Three(_, _),
          Two(_, _), IndexTail(_, _, _), One(_, _), ListTail(_, _, _), MapTail(_, _, _),
          LevelTail(_, _, _, _, _), NotExpr(_, _), RangeExpr(_, _), Block(_, _)

(* Statements, optionally separated after for and if, then a last expression. *)
Script(ts, i) ==
    LET s == Statements(ts, i, <<>>)
    IN IF s.r = "fail" THEN s
       ELSE LET e == Expr(ts, s.p)
            IN CASE e.r = "fail" -> e
                 [] e.r = "err"  -> Ok(s.p, <<"do", s.v>>)
                 [] OTHER -> Ok(IF X(ts, e.p) = ";" THEN e.p + 1 ELSE e.p, <<"do", Append(s.v, e.v)>>)

Statements(ts, i, acc) ==
    LET s == Statement(ts, i)
    IN CASE s.r = "fail" -> s
         [] s.r = "err"  -> Ok(i, acc)
         [] OTHER        -> Statements(ts, s.p, Append(acc, s.v))

Statement(ts, i) ==
    LET e == Expr(ts, i)
    IN IF e.r # "ok" THEN e
       ELSE IF X(ts, e.p) = ";" THEN Ok(e.p + 1, e.v)
       ELSE IF e.v[1] \in {"for", "if"} THEN e
       ELSE Err

(* Pipes and redirections. *)
Expr(ts, i) ==
    IF Terminating(ts, i) THEN Err
    ELSE LET h == Seven(ts, i)
         IN IF h.r # "ok" THEN h ELSE PipeTail(ts, h.p, <<h.v>>)

PipeTail(ts, i, acc) ==
    LET op == X(ts, i)
        e  == IF op \in {"|", ">>", ">>>", "<<"} THEN Seven(ts, i + 1) ELSE Err
    IN CASE e.r = "fail" -> e
         [] e.r = "err"  -> Ok(i, IF Len(acc) = 1 THEN acc[1] ELSE Grp(App(Sym("|"), acc)))
         [] OTHER ->
            PipeTail(ts, e.p,
              IF op = "|" THEN Append(acc, e.v)
              ELSE IF op = "<<"
              THEN SubSeq(acc, 1, Len(acc) - 1) \o <<App(Sym("<<"), <<e.v>>), acc[Len(acc)]>>
              ELSE Append(acc, App(Sym(op), <<e.v>>)))

FirstOk(a, b) == IF a.r = "err" THEN b ELSE a

Seven(ts, i) ==
    IF Terminating(ts, i) THEN Err
    ELSE CASE X(ts, i) = "for" -> ForLoop(ts, i)
           [] X(ts, i) = "if"  -> IfExpr(ts, i)
           [] X(ts, i) = "let" -> LetExpr(ts, i)
           [] OTHER ->
    LET c == Callable(ts, i) IN IF c.r # "err" THEN c ELSE
    LET a == Apply(ts, i)    IN IF a.r # "err" THEN a ELSE
    LET o == ApplyOp(ts, i)  IN IF o.r # "err" THEN o ELSE Six(ts, i)

ForLoop(ts, i) ==
    IF K(ts, i + 1) # "sym"
    THEN Fail(i + 1, "symbol", "", "try using a valid symbol such as `x` in `for x in 0 to 10 {}`")
    ELSE IF X(ts, i + 2) # "in"
    THEN Fail(i + 2, "`in` keyword", "", "try writing a for loop in the format of `for i in 0 to 10 {}`")
    ELSE LET l == FirstOk(RangeExpr(ts, i + 3), Four(ts, i + 3))
         IN IF l.r # "ok"
            THEN Fail(i + 3, "iterable expression", "",
                      "try adding an iterable expression such as `0 to 10` to your for loop")
            ELSE LET b == Block(ts, l.p)
                 IN IF b.r # "ok"
                    THEN Fail(l.p, "block", "",
                              "try adding a block, such as `{ print \"hello!\"}` to the end of your for loop")
                    ELSE Ok(b.p, <<"for", X(ts, i + 1), l.v, b.v>>)

IfExpr(ts, i) ==
    IF X(ts, i) # "if" THEN Err ELSE
    LET c == Six(ts, i + 1)
    IN IF c.r # "ok"
       THEN Fail(i + 1, "condition expression", "",
                 "try adding a condition expression to your if statement")
       ELSE LET t == Four(ts, c.p)
            IN IF t.r # "ok"
               THEN Fail(c.p, "then expression", "",
                         "try adding an expression to the end of your if statement")
               ELSE LET e == IF X(ts, t.p) = "else"
                             THEN FirstOk(IfExpr(ts, t.p + 1), Four(ts, t.p + 1)) ELSE Err
                    IN CASE e.r = "fail" -> e
                         [] e.r = "err"  -> Ok(t.p, <<"if", c.v, t.v, <<"none">> >>)
                         [] OTHER        -> Ok(e.p, <<"if", c.v, t.v, Grp(e.v)>>)

LetExpr(ts, i) ==
    IF K(ts, i + 1) \notin {"sym", "op"}
    THEN Fail(i + 1, "symbol", "", "try using a valid symbol such as `x` in `let x = 5`")
    ELSE IF X(ts, i + 2) # "="
    THEN Fail(i + 2, "`=`", "", "let expressions must use an `=` sign")
    ELSE LET e == Expr(ts, i + 3)
         IN IF e.r # "ok" THEN e ELSE Ok(e.p, <<"asg", X(ts, i + 1), e.v>>)

Callable(ts, i) ==
    IF K(ts, i) # "sym" \/ X(ts, i + 1) \notin {"->", "~>"} THEN Err
    ELSE LET b == Expr(ts, i + 2)
         IN IF b.r # "ok"
            THEN Fail(i + 2, "an expression", "",
                      "try writing a lambda or macro like `x -> x + 1` or `y ~> let x = y`")
            ELSE Ok(b.p, <<IF X(ts, i + 1) = "->" THEN "lam" ELSE "mac", X(ts, i), b.v>>)

\* Arguments, as many as there are.
ArgsFrom(ts, i, acc) ==
    LET a == Five(ts, i)
    IN CASE a.r = "fail" -> a
         [] a.r = "err"  -> Ok(i, acc)
         [] OTHER        -> ArgsFrom(ts, a.p, Append(acc, a.v))

Apply(ts, i) ==
    LET t == Two(ts, i)
        f == IF t.r = "err" /\ K(ts, i) = "op" THEN Ok(i + 1, Sym(X(ts, i))) ELSE t
    IN IF f.r # "ok" THEN f
       ELSE LET as == ArgsFrom(ts, f.p, <<>>)
            IN IF as.r # "ok" THEN as
               ELSE IF as.v = <<>> THEN Err ELSE Ok(as.p, App(f.v, as.v))

\* Only reached when no arguments follow (Apply has taken those).
ApplyOp(ts, i) == IF K(ts, i) = "op" THEN Ok(i + 1, Sym(X(ts, i))) ELSE Err

(* The levels of binary operators, all left associative. *)
Operand(lvl, ts, i) == CASE lvl = 6 -> Five(ts, i)
                         [] lvl = 5 -> Four(ts, i)
                         [] lvl = 4 -> Three(ts, i)
                         [] lvl = 3 -> Two(ts, i)
Operators == [l \in 3..6 |-> CASE l = 6 -> {"&&", "||"}
                               [] l = 5 -> {"==", "!=", ">=", "<=", ">", "<"}
                               [] l = 4 -> {"+", "-"}
                               [] l = 3 -> {"*", "//", "%"}]
LevelTail(lvl, ts, i, head, n) ==
    LET e == IF X(ts, i) \in Operators[lvl] THEN Operand(lvl, ts, i + 1) ELSE Err
    IN CASE e.r = "fail" -> e
         [] e.r = "err"  -> [r |-> "ok", p |-> i, v |-> head, n |-> n]
         [] OTHER        -> LevelTail(lvl, ts, e.p, BinOp(X(ts, i), head, e.v), n + 1)
Level(lvl, ts, i) ==
    IF Terminating(ts, i) THEN Err
    ELSE LET h == Operand(lvl, ts, i)
         IN IF h.r # "ok" THEN h
            ELSE LET t == LevelTail(lvl, ts, h.p, h.v, 0)
                 IN IF t.r = "ok" THEN Ok(t.p, t.v) ELSE t

Six(ts, i)   == Level(6, ts, i)
Four(ts, i)  == Level(4, ts, i)
Three(ts, i) == Level(3, ts, i)

NotExpr(ts, i) ==
    IF X(ts, i) # "!" THEN Err
    ELSE LET e == Four(ts, i + 1) IN IF e.r # "ok" THEN e ELSE Ok(e.p, App(Sym("!"), <<e.v>>))

RangeHint == "try writing an expression like `0 to 10`"
\* Comparisons, a negation as first operand, or a range of two sums.
Five(ts, i) ==
    IF Terminating(ts, i) THEN Err
    ELSE LET h == FirstOk(NotExpr(ts, i), Four(ts, i))
         IN IF h.r # "ok" THEN h
            ELSE LET t == LevelTail(5, ts, h.p, h.v, 0)
                 IN IF t.r # "ok" THEN t
                    ELSE IF t.n = 0 /\ X(ts, h.p) = "to"
                    THEN LET e == Four(ts, h.p + 1)
                         IN IF e.r # "ok" THEN Fail(h.p + 1, "a valid range expression", "", RangeHint)
                            ELSE Ok(e.p, App(Sym("to"), <<h.v, e.v>>))
                    ELSE Ok(t.p, t.v)

RangeExpr(ts, i) ==
    IF Terminating(ts, i) THEN Err
    ELSE LET a == Four(ts, i)
         IN IF a.r # "ok" THEN a
            ELSE IF X(ts, a.p) # "to" THEN Err
            ELSE LET e == Four(ts, a.p + 1)
                 IN IF e.r # "ok" THEN Fail(a.p + 1, "a valid range expression", "", RangeHint)
                    ELSE Ok(e.p, App(Sym("to"), <<a.v, e.v>>))

(* Indexing. *)
Two(ts, i) ==
    IF Terminating(ts, i) THEN Err
    ELSE LET h == One(ts, i) IN IF h.r # "ok" THEN h ELSE IndexTail(ts, h.p, <<h.v>>)
IndexTail(ts, i, acc) ==
    LET e == IF X(ts, i) = "@"
             THEN LET o == One(ts, i + 1)
                  IN IF o.r = "err" /\ K(ts, i + 1) = "op" THEN Ok(i + 2, Sym(X(ts, i + 1))) ELSE o
             ELSE Err
    IN CASE e.r = "fail" -> e
         [] e.r = "err"  -> Ok(i, IF Len(acc) = 1 THEN acc[1] ELSE App(Sym("@"), acc))
         [] OTHER        -> IndexTail(ts, e.p, Append(acc, e.v))

Block(ts, i) ==
    IF X(ts, i) # "{" THEN Err
    ELSE LET s == Script(ts, i + 1)
         IN IF s.r # "ok" THEN s
            ELSE IF X(ts, s.p) = "}" THEN Ok(s.p + 1, s.v)
            ELSE Fail(s.p, "`}`", "no matching `}`",
                      "try adding a matching `}` to the end of your block")

\* key = expression pairs after what acc already holds, from i on.
MapItem(ts, i) ==
    IF K(ts, i) \in {"sym", "op"} /\ X(ts, i + 1) = "="
    THEN LET e == Expr(ts, i + 2)
         IN IF e.r # "ok" THEN e ELSE Ok(e.p, <<X(ts, i), e.v>>)
    ELSE Err
MapTail(ts, i, acc) ==
    LET j == IF acc = <<>> THEN i ELSE i + 1
        e == IF acc = <<>> \/ X(ts, i) = "," THEN MapItem(ts, j) ELSE Err
    IN CASE e.r = "fail" -> e
         [] e.r = "ok"   -> MapTail(ts, e.p, Append(acc, e.v))
         [] OTHER        ->
            IF X(ts, i) = "}" THEN Ok(i + 1, <<"map", MapOf(acc, <<>>)>>)
            ELSE IF acc = <<>> THEN Err
            ELSE Fail(i, "`}`", "no matching `}`", "try adding a matching `}` to the end of your map")

ListTail(ts, i, acc) ==
    LET j == IF acc = <<>> THEN i ELSE i + 1
        e == IF acc = <<>> \/ X(ts, i) = "," THEN Expr(ts, j) ELSE Err
    IN CASE e.r = "fail" -> e
         [] e.r = "ok"   -> ListTail(ts, e.p, Append(acc, e.v))
         [] OTHER        ->
            IF X(ts, i) = "]" THEN Ok(i + 1, <<"list", acc>>)
            ELSE Fail(i, "`]`", "no matching `]`", "try adding a matching `]` to the end of your list")

GroupExpr(ts, i) ==
    LET e == Expr(ts, i + 1)
    IN IF e.r # "ok" THEN e
       ELSE IF X(ts, e.p) = ")" THEN Ok(e.p + 1, Grp(e.v))
       ELSE IF e.p > Len(ts) THEN Ok(e.p, Grp(e.v))      \* the last ones may be left open
       ELSE Fail(e.p, "`)`", "no matching parentheses",
                 "try adding a matching `)` to the end of your expression")

One(ts, i) ==
    LET x == X(ts, i)
        k == K(ts, i)
    IN CASE x = "("  -> LET g == GroupExpr(ts, i)
                        IN IF g.r = "err" /\ X(ts, i + 1) = ")" THEN Ok(i + 2, <<"none">>) ELSE g
         [] x = "'"  -> LET e == Two(ts, i + 1)
                        IN IF e.r # "ok" THEN e ELSE Ok(e.p, <<"quo", e.v>>)
         [] x = "{"  -> FirstOk(MapTail(ts, i + 1, <<>>), Block(ts, i))
         [] x = "["  -> ListTail(ts, i + 1, <<>>)
         [] k = "bool" -> Ok(i + 1, <<"bool", x = "True">>)
         [] x = "None" -> Ok(i + 1, <<"none">>)
         [] k = "flt"  -> Ok(i + 1, FloatOfText(x))
         [] k = "int"  -> LET n == IntOfText(x)
                          IN IF InRange(n) THEN Ok(i + 1, n)
                             ELSE Fail(i, "integer",
                                       IF Ch(x, 1) = "-" THEN "error: number too small to fit in target type"
                                       ELSE "error: number too large to fit in target type", "")
         [] k = "str"  -> Ok(i + 1, <<"str", Unescape(x)>>)
         [] k = "sym"  -> Ok(i + 1, Sym(x))
         [] OTHER -> Err

WordLike == {"sym", "kw", "op", "bool", "flt", "int"}

(***************************************************************************)
(* Parse(s) is [r |-> "ok", ast |-> tree] or                               *)
(*   [r |-> "err", diags |-> diagnostics]       malformed tokens, or       *)
(*   [r |-> "err", a, z, exp, found, hint]      the text at a..z is wrong. *)
(***************************************************************************)
ParseTokens(s, all) ==
    LET bad == SelectSeq(all, LAMBDA t : t.d # Valid)
        glued == {i \in 1..(Len(all) - 1) :
                    /\ all[i].k \in WordLike /\ all[i + 1].k \in WordLike
                    /\ TokText(s, all[i]) # "@" /\ TokText(s, all[i + 1]) # "@"}
        kept == SelectSeq(all, LAMBDA t : t.k \notin {"ws", "com"})
        ts   == TLCEval([i \in 1..Len(kept) |->
                    [k |-> kept[i].k, a |-> kept[i].a, z |-> kept[i].z, x |-> TokText(s, kept[i])]])
        \* Region of the token at i, empty at the end of the text.
        A(i) == IF i <= Len(ts) THEN ts[i].a ELSE Len(s) + 1
        Z(i) == IF i <= Len(ts) THEN ts[i].z ELSE Len(s) + 1
    IN IF bad # <<>> THEN [r |-> "err", diags |-> [i \in 1..Len(bad) |-> bad[i].d]]
       ELSE IF glued # {}
       THEN LET g == CHOOSE i \in glued : \A j \in glued : i <= j
            IN [r |-> "err", a |-> all[g].a, z |-> all[g + 1].z, exp |-> "whitespace",
                found |-> TokText(s, all[g + 1]), hint |-> ""]
       ELSE LET p == Script(ts, 1)
            IN CASE p.r = "fail" -> [r |-> "err", a |-> A(p.e.i), z |-> Z(p.e.i), exp |-> p.e.exp,
                                     found |-> p.e.found, hint |-> p.e.hint]
                 [] p.r = "ok" /\ p.p <= Len(ts) -> [r |-> "err", a |-> A(p.p), z |-> Z(p.p),
                                     exp |-> "end of input", found |-> "", hint |-> ""]
                 [] OTHER -> [r |-> "ok", ast |-> p.v]
Parse(s) == ParseTokens(s, Lex(s))
=============================================================================
