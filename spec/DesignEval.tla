----------------------------- MODULE DesignEval -----------------------------
(***************************************************************************)
(* The laws of the evaluator, checked on the specification by itself: in   *)
(* every state which a history of programs of the pool leads to, for every *)
(* program (and pair of programs) of the pool.  Each law is the statement  *)
(* of a property, not of how evaluation proceeds.                          *)
(***************************************************************************)
EXTENDS DuneEval
CONSTANTS Longest,   \* the longest history
          Laws       \* the laws to check

Texts == <<
  "x", "let x = 1", "let x = x + 1", "let f = a -> { let x = a; [a, x, y] }", "f 5", "unbind 'x",
  "zz 1", "{ let y = 2; 1 // 0; let y = 3 }", "println x", "let m = y ~> { let x = y; y }", "m 7", "for x in [8, 9] { println x; y }",
  "if x { let y = 4 } else { let y = 5 }", "cd \"d\"", "fs@write \"w\" [x, y]", "log@set-level 3", "log@info { println 6; x }",
  "let f = fn@map (k -> [k, x])", "err@try (zz x) (e -> { let y = e@code; y })", "'(x + 1)", "vwhere" >>
Ix == 1..Len(Texts)

VARIABLES s, k,
          pool,    \* the programs; they are there from the first step on
          audit    \* <<>> or <<law, program, holds>>
vars == <<s, k, pool, audit>>
FileOf(i) == <<<<"p" \o NatText(i)>>, <<"file", Str(Texts[i])>> >>
Tree == TLCEval([x \in {<<>>, <<"d">>} \cup {FileOf(i)[1] : i \in Ix} |->
           IF x = <<>> \/ x = <<"d">> THEN <<"dir">> ELSE FileOf(CHOOSE i \in Ix : FileOf(i)[1] = x)[2]])
Root == "/r"
Init == /\ k = -1 /\ pool = <<>> /\ audit = <<>>
        /\ s = [e |-> [b |-> "CWD" :> Str(Root), base |-> DOMAIN Base], o |-> "", l |-> IntV(0), n |-> 0,
                f |-> [root |-> <<"r">>, t |-> Tree], p |-> Root, x |-> EmptyB, i |-> <<>>]
\* What is observed of a result, apart from the bindings.
Seen(r) == <<r.k, r.v, r.s.o, r.s.f, r.s.p, r.s.l>>
Run(e, t) == Ev(e, t, 0)
QuoteOf(e) == <<"quo", e>>
B1(id, e) == App(Bi(id), <<e>>)
Lit(n) == IntV(n)
Lam(p, e) == <<"lam", p, e>>
Mac(p, e) == <<"mac", p, e>>
SameErr(a, b) == a.k = b.k /\ a.v[1] = b.v[1]
Decided(r) == r.k # "skip"

(* C10 *)
QuoteLaw(i) == LET r == Run(QuoteOf(pool[i]), s) IN r = OkS(s, pool[i])
EvalLaw(i) == LET r == Run(pool[i], s)
                             q == Run(B1("eval", QuoteOf(pool[i])), s)
                         IN Decided(r) => Seen(q) = Seen(r) /\ q.s.e = s.e
ExecLaw(i) == LET r == Run(pool[i], s)
                             q == Run(B1("exec", QuoteOf(pool[i])), s)
                         IN Decided(r) => q = r
ParseLaw(i) == LET r == Run(pool[i], s)
                          IN /\ Run(B1("parse@expr", Str(Texts[i])), s) = OkS(s, pool[i])
                             /\ Decided(r) => Run(B1("exec", B1("parse@expr", Str(Texts[i]))), s) = r
FileLaw(i) == LET r == Run(pool[i], s)
                             name == Str(Root \o "/p" \o NatText(i))
                             q == Run(B1("sys@include", name), s)
                             m == Run(B1("sys@import", name), s)
                         IN Decided(r) => q = r /\ Seen(m) = Seen(r) /\ m.s.e = s.e

(* C04: whatever happens between the making of a function and its call. *)
CallLaw(i) == LET r == Run(App(Lam("q", pool[i]), <<Lit(1)>>), s) IN Decided(r) => r.s.e = s.e
Lexical(i) ==
    LET f == Run(Lam("q", pool[i]), s).v
        Call1(u) == Run(App(QuoteOf(f), <<Lit(1)>>), [u EXCEPT !.o = ""])
        here == Seen(Call1(s))
    IN here[1] # "skip" =>
       \A j \in Ix : LET t == Run(pool[j], s).s
                         q == Call1(t)
                     IN (t.f = s.f /\ Cwd(t.e) = Cwd(s.e) /\ t.p = s.p /\ t.l = s.l) => Seen(q) = here /\ q.s.e = t.e
Shadow(i) == \A n \in {"x", "y", "f"} :
    Run(App(Lam(n, <<"sym", n>>), <<Lit(40)>>), s) = OkS(s, Lit(40))
Several(i) ==
    LET f == Lam("a", Lam("b", pool[i]))
        one == Run(App(f, <<Lit(1), Lit(2)>>), s)
        two == Run(App(<<"grp", App(f, <<Lit(1)>>)>>, <<Lit(2)>>), s)
    IN Decided(one) => Seen(one) = Seen(two) /\ one.s.e = two.s.e

(* C05 *)
MacroLaw(i) ==
    LET r == Run(App(Mac("q", pool[i]), <<Lit(1)>>), s)
        t == Run(<<"do", <<<<"asg", "q", Lit(1)>>, pool[i]>> >>, s)
    IN Decided(r) => r = t
MacroArg(i) ==
    LET r == Run(App(Mac("q", <<"sym", "q">>), <<pool[i]>>), s)
        t == Run(<<"do", <<<<"asg", "q", pool[i]>>, <<"sym", "q">> >> >>, s)
    IN Decided(r) => r = t

(* C06 and C07 *)
SeqLaw(i) == \A j \in Ix :
    LET r == Run(pool[i], s)
        q == Run(pool[j], r.s)
        both == Run(<<"do", <<pool[i], pool[j]>> >>, s)
        listed == Run(<<"list", <<pool[i], pool[j]>> >>, s)
    IN Decided(r) /\ Decided(q) =>
       /\ both = IF r.k = "ok" THEN q ELSE r
       /\ IF r.k = "ok" /\ q.k = "ok" THEN listed = OkS(q.s, ListV(<<r.v, q.v>>)) ELSE listed = both
IfLaw(i) == \A j \in Ix :
    LET c == Run(pool[i], s)
        t == <<"if", pool[i], pool[j], Lit(3)>>
    IN Decided(c) => IF c.k # "ok" THEN Run(t, s) = c
                     ELSE IF Truthy(c.v) = "T" THEN Run(t, s) = Run(pool[j], c.s)
                     ELSE IF Truthy(c.v) = "F" THEN Run(t, s) = OkS(c.s, Lit(3)) ELSE TRUE
ForLaw(i) ==
    LET u == Run(<<"do", <<<<"asg", "q", Lit(1)>>, pool[i]>> >>, s)
        v == Run(<<"do", <<<<"asg", "q", Lit(2)>>, pool[i]>> >>, u.s)
        r == Run(<<"for", "q", ListV(<<Lit(1), Lit(2)>>), pool[i]>>, s)
    IN Decided(u) /\ Decided(v) => IF u.k # "ok" THEN r = u ELSE IF v.k # "ok" THEN r = v ELSE r = OkS(v.s, ListV(<<u.v, v.v>>))
LetLaw(i) == LET r == Run(pool[i], s)
                            q == Run(<<"asg", "q", pool[i]>>, s)
                        IN Decided(r) => IF r.k = "ok" THEN q = OkS(DefS(r.s, "q", r.v), NoneV) ELSE q = r
TryLaw(i) ==
    LET r == Run(pool[i], s)
        t == Run(App(Bi("err@try"), <<pool[i], Lam("e", <<"sym", "e">>)>>), s)
    IN Decided(r) => IF r.k # "err" THEN t = r
                     ELSE t.k = "ok" /\ t.s = r.s /\ Kids(t.v) = <<IntV(CodeOfErr[r.v[1]]), pool[i], Str(r.v[2])>>

(* C19 *)
LogLaw(i) == \A id \in LogIds, lv \in 0..6 :
    LET t == Run(B1("log@set-level", Lit(lv)), s).s
        r == Run(B1(id, <<"do", << <<"asg", "q", Lit(1)>>, Str("t") >> >>), t)
    IN IF LogLevel[LastOf(id)] <= lv THEN r.s.o = s.o \o LogTag[LastOf(id)] \o "t" \o NL /\ "q" \in DOMAIN r.s.e.b
       ELSE r = OkS(t, NoneV)

(* C14 *)
CdLaw(i) == \A name \in {"d", "..", ".", "nowhere", "p1", "/r/d", "d/../d"} :
    LET r == Run(B1("os@cd", Str(name)), s)
        w == Find(s.f, JoinPath(Cwd(s.e), name))
    IN r.k = "skip" \/ IF r.k = "ok" THEN Cwd(r.s.e) = r.s.p /\ r.s.f = s.f ELSE r.s = s
CwdLaw(i) == (Cwd(s.e) = s.p /\ Run(App(Bi("sys@cwd"), <<>>), s).v = Str(s.p))

(* C26 *)
Sees(t, n) == Run(App(Bi("sys@defined?"), <<<<"sym", n>> >>), t).v = BoolV(TRUE)
BindLaw(i) == \A n \in {"x", "len", "q"} :
    LET put == Run(App(Bi("sys@set"), <<<<"sym", n>>, Lit(9)>>), s)
        let == Run(<<"asg", n, Lit(9)>>, s)
        cut == Run(App(Bi("sys@unset"), <<<<"sym", n>> >>), s)
        off == Run(App(Bi("unbind"), <<Str(n)>>), s)
        Others(t) == \A m \in (DOMAIN s.e.b \cup s.e.base \cup DOMAIN t.e.b \cup t.e.base) \ {n} : Lookup(t.e, m) = Lookup(s.e, m)
        Same(t) == [t EXCEPT !.e = s.e] = s
    IN /\ put = let /\ cut = off
       /\ put.k = "ok" /\ put.v = NoneV /\ Same(put.s) /\ Others(put.s) /\ Lookup(put.s.e, n) = Lit(9) /\ Sees(put.s, n)
       /\ cut.k = "ok" /\ cut.v = NoneV /\ Same(cut.s) /\ Others(cut.s) /\ ~Defined(cut.s.e, n) /\ ~Sees(cut.s, n)
       /\ Run(<<"sym", n>>, cut.s) = OkS(cut.s, <<"sym", n>>)
       /\ Run(App(Bi("sys@set"), <<<<"sym", n>>, Lit(9)>>), cut.s).s.e.b[n] = Lit(9)
\* Every way to ask agrees, here and in the scope of a macro; asking changes nothing.
AskLaw(i) == \A n \in {"x", "len", "q", "f", "CWD", "nothing"} :
    LET all == Run(App(Bi("vars"), <<>>), s)
        listed == \E j \in 1..Len(all.v[2]) : all.v[2][j][1] = n
    IN /\ all = Run(App(Bi("sys@env"), <<>>), s) /\ all.s = s
       /\ Sees(s, n) = listed /\ listed = Defined(s.e, n)
       /\ listed => \E j \in 1..Len(all.v[2]) : all.v[2][j] = <<n, Lookup(s.e, n)>>

(* C15: a pipe is the composition of its stages. *)
PipeOf(es) == Run(App(Bi("|"), es), s)
Fst == Lam("k", <<"list", <<<<"sym", "k">>, Lit(7)>> >>)
Snd == Mac("k", <<"do", << <<"asg", "q", <<"sym", "k">> >>, <<"sym", "k">> >> >>)
Prog(n) == <<"sym", n>>
IsProg(e) == AsProgram(e, s.e)[1] = "prog"
PipeLaw(i) ==
    LET r == Run(pool[i], s)
        v == r.v
        one == PipeOf(<<pool[i], Fst>>)
        two == PipeOf(<<pool[i], Fst, Snd>>)
        cat == PipeOf(<<pool[i], Prog("vcat")>>)
    IN Decided(r) /\ ~IsProg(pool[i]) =>
       IF r.k # "ok" THEN {one, two, cat} = {r}
       ELSE LET q == Run(App(Fst, <<v>>), r.s)
                t == Run(App(Snd, <<q.v>>), q.s)
            IN /\ Decided(q) => one = q
               /\ Decided(q) /\ q.k = "ok" /\ Decided(t) => two = t
               /\ two.k # "skip" => two = PipeOf(<<App(Bi("|"), <<pool[i], Fst>>), Snd>>)
               \* A program gets the text, exactly, and prints; one in between passes on what it printed.
               /\ cat.k # "skip" => cat = OkS([r.s EXCEPT !.o = @ \o Disp(v)], NoneV)
               /\ LET m == PipeOf(<<pool[i], Prog("vcat"), Prog("vcat"), Snd>>)
                  IN Decided(m) => m.k = "ok" /\ m.v = Str(Disp(v)) /\ m.s.o = r.s.o /\ m.s.e.b["q"] = Str(Disp(v))
               /\ LET m == PipeOf(<<pool[i], Prog("vnull"), Prog("vcount")>>) IN Decided(m) => m = OkS([r.s EXCEPT !.o = @ \o "0 ok" \o NL], NoneV)
               /\ LET m == PipeOf(<<pool[i], Prog("nosuch"), Snd>>) IN Decided(m) => m.k = "err" /\ m.s = r.s

(* C16: what a program is given. *)
RECURSIVE Boxed(_)
Boxed(v) == CASE v = NoneV -> ""
              [] v[1] = "list" -> Concat([j \in 1..Len(v[2]) |-> Boxed(v[2][j])])
              [] v[1] = "grp" -> Boxed(v[2])
              [] OTHER -> "[" \o Disp(v) \o "]" \o NL
RunLaw(i) ==
    LET r == Run(pool[i], s)
        c == Run(App(Prog("vargv"), <<Str("a b"), pool[i], Str("*")>>), s)
        d == Run(App(Prog("vwhere"), <<pool[i]>>), s)
        g == Run(App(Prog("nosuch"), <<pool[i]>>), s)
    IN Decided(r) =>
       IF r.k # "ok" THEN {c, d, g} \subseteq {r, SkipS(r.s)}
       ELSE /\ Decided(c) => c = OkS([r.s EXCEPT !.o = @ \o "[a b]" \o NL \o Boxed(r.v) \o "[*]" \o NL], NoneV)
            /\ Decided(d) => d = OkS([r.s EXCEPT !.o = @ \o Cwd(r.s.e) \o NL], NoneV)
            /\ Decided(g) => g.k = "err" /\ g.v[1] = "program-not-found" /\ g.s = r.s

-----------------------------------------------------------------------------
Holds(law, i) ==
    CASE law = "QuoteLaw" -> QuoteLaw(i)
      [] law = "EvalLaw" -> EvalLaw(i)
      [] law = "ExecLaw" -> ExecLaw(i)
      [] law = "ParseLaw" -> ParseLaw(i)
      [] law = "FileLaw" -> FileLaw(i)
      [] law = "CallLaw" -> CallLaw(i)
      [] law = "Lexical" -> Lexical(i)
      [] law = "Shadow" -> Shadow(i)
      [] law = "Several" -> Several(i)
      [] law = "MacroLaw" -> MacroLaw(i)
      [] law = "MacroArg" -> MacroArg(i)
      [] law = "SeqLaw" -> SeqLaw(i)
      [] law = "IfLaw" -> IfLaw(i)
      [] law = "ForLaw" -> ForLaw(i)
      [] law = "LetLaw" -> LetLaw(i)
      [] law = "TryLaw" -> TryLaw(i)
      [] law = "LogLaw" -> LogLaw(i)
      [] law = "CdLaw" -> CdLaw(i)
      [] law = "CwdLaw" -> CwdLaw(i)
      [] law = "BindLaw" -> BindLaw(i)
      [] law = "PipeLaw" -> PipeLaw(i)
      [] law = "RunLaw" -> RunLaw(i)
      [] law = "AskLaw" -> AskLaw(i)

Prepare == k = -1 /\ k' = 0 /\ s' = s /\ audit' = audit /\ pool' = [i \in Ix |-> Parse(Texts[i]).ast]
Step(i) == /\ k >= 0 /\ k < Longest /\ k' = k + 1 /\ pool' = pool /\ audit = <<>> /\ audit' = <<>>
           /\ s' = [Ev(pool[i], s, 0).s EXCEPT !.o = ""]
\* Every law of every program, once in every state of the shell.
Audit(law, i) == /\ k >= 0 /\ audit = <<>> /\ k' = k /\ pool' = pool /\ s' = s
                 /\ audit' = <<law, i, Holds(law, i)>>
\* These are not about a program.
Single == {"Shadow", "LogLaw", "CdLaw", "CwdLaw", "BindLaw", "AskLaw"}
Next == Prepare \/ \E i \in Ix : Step(i) \/ \E law \in {l \in Laws : i = 1 \/ l \notin Single} : Audit(law, i)
Spec == Init /\ [][Next]_vars
AllHold == audit # <<>> => audit[3]
\* A state of the shell is audited once, however it was reached.
View == <<s, audit, k < 0>>
=============================================================================
