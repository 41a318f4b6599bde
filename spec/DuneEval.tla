------------------------------ MODULE DuneEval ------------------------------
(***************************************************************************)
(* The evaluator: what running an expression does to the shell's state and *)
(* what comes of it.                                                       *)
(*                                                                         *)
(* A state s has                                                           *)
(*   e  the environment [b |-> names to values, base |-> the names among   *)
(*      those the shell starts with which are visible beneath]             *)
(*   o  the text printed so far                                            *)
(*   l  the log level                                                      *)
(*   n  the depth of the builtins being called                             *)
(*   f  the file tree, p the working directory of the process              *)
(*   x  the variables the shell inherited                                  *)
(*   i  the lines left on standard input                                   *)
(* The result of evaluating is [s, k, v]: the state afterwards with        *)
(*   k = "ok"    and the value v                                           *)
(*   k = "err"   and v = <<kind, message>>                                 *)
(*   k = "exit"  and the status v                                          *)
(*   k = "skip"  when the specification does not decide it.                *)
(***************************************************************************)
EXTENDS DuneFs, DuneToml

EmptyB == [x \in {} |-> 0]
NoEnv == [b |-> EmptyB, base |-> {}]
\* The names the shell starts with.
RECURSIVE Conv(_)
Conv(v) == CASE v[1] = "lam" /\ Len(v) = 4 -> <<"lam", v[2], v[3], [b |-> EmptyB, base |-> Range(v[4])]>>
             [] v[1] = "map" -> <<"map", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Conv(v[2][i][2])>>]>>
             [] OTHER -> v
BaseList == JsonDeserialize("base.json")
Base == TLCEval([n \in {BaseList[i][1] : i \in 1..Len(BaseList)} |->
                  Conv(BaseList[CHOOSE i \in 1..Len(BaseList) : BaseList[i][1] = n][2])])

OkS(s, v) == [s |-> s, k |-> "ok", v |-> v]
ErrS(s, kind, m) == [s |-> s, k |-> "err", v |-> <<kind, m>>]
Cus(s, m) == ErrS(s, "custom-error", m)
SkipS(s) == [s |-> s, k |-> "skip", v |-> NoneV]
Then(r, F(_)) == IF r.k = "ok" THEN F(r) ELSE r
WithE(s, E) == [s EXCEPT !.e = E]
\* What an answer of the library means here.
FromLib(s, a) == IF a[1] = "ok" THEN OkS(s, a[2]) ELSE IF a[1] = "err" THEN Cus(s, a[2]) ELSE SkipS(s)
\* The directory the process works in is not followed when it is moved or removed.
Stands(f, dir) == LET w == Find(f, dir) IN w[1] = "at" /\ IsDirAt(f, w[2])
FromFs(s, a) == IF a.f # s.f /\ Stands(s.f, s.p) /\ ~Stands(a.f, s.p) THEN SkipS(s) ELSE FromLib([s EXCEPT !.f = a.f], a.r)
Emit(s, t) == [s EXCEPT !.o = @ \o t]

CodeOfErr == ("cannot-apply" :> 1) @@ ("symbol-not-defined" :> 2) @@ ("command-failed" :> 3) @@ ("for-non-list" :> 4)
             @@ ("recursion-depth" :> 5) @@ ("permission-denied" :> 6) @@ ("program-not-found" :> 7)
             @@ ("syntax-error" :> 8) @@ ("custom-error" :> 9)

-----------------------------------------------------------------------------
(* Environments. *)
Lookup(E, n) == IF n \in DOMAIN E.b THEN E.b[n] ELSE IF n \in E.base THEN Base[n] ELSE <<"undef">>
Defined(E, n) == n \in DOMAIN E.b \/ n \in E.base
Def(E, n, v) == [E EXCEPT !.b = (n :> v) @@ @]
Undef(E, n) == [b |-> [x \in DOMAIN E.b \ {n} |-> E.b[x]], base |-> E.base \ {n}]
DefS(s, n, v) == WithE(s, Def(s.e, n, v))
Cwd(E) == LET v == Lookup(E, "CWD") IN IF v[1] = "str" THEN v[2] ELSE "/"
\* All bindings as a map.
EnvMap(E) == LET ns == SortNames(DOMAIN E.b \cup E.base) IN MapV([i \in 1..Len(ns) |-> <<ns[i], Lookup(E, ns[i])>>])

RECURSIVE Used(_)
Used(v) == IF v[1] = "sym" THEN {v[2]} ELSE UNION {Used(Kids(v)[i]) : i \in DOMAIN Kids(v)}
\* The function a lambda expression is here.
Close(v, E) ==
    LET cap == IF Len(v) = 4 THEN v[4] ELSE NoEnv
        want == {n \in Used(v[3]) \ {v[2]} : ~Defined(cap, n)}
        own == want \cap DOMAIN E.b
    IN <<"lam", v[2], v[3],
         [b |-> [n \in own |-> E.b[n]] @@ ("CWD" :> Str(Cwd(E))) @@ (v[2] :> NoneV) @@ cap.b,
          base |-> cap.base \cup ((want \ own) \cap E.base)]>>
\* The environment of a call.
CallEnv(lam, x, cwd) == Def(Def(lam[4], "CWD", Str(cwd)), lam[2], x)

Quo(v) == <<"quo", v>>
ArgList(args) == "[" \o Join(Dbgs(args), ", ") \o "]"

\* A curried builtin of n arguments, those passed on in order or reversed.
ArgName(i) == "arg" \o NatText(i)
RECURSIVE Lams(_, _, _)
Lams(i, n, body) == IF i = n THEN body ELSE <<"lam", ArgName(i), Lams(i + 1, n, body)>>
Curried(f, n, E) == LET t == Lams(0, n, App(f, [i \in 1..n |-> <<"sym", ArgName(i - 1)>>]))
                    IN IF n = 0 THEN t ELSE Close(t, E)
RevCurried(f, n, E) == Close(Lams(0, n, App(f, [i \in 1..n |-> <<"sym", ArgName(n - i)>>])), E)
Bi(id) == <<"bi", id, id>>
Program(t) == Parse(t).ast
MapLam == Program("f -> list -> for item in list {f item}")
FilterLam == Program("f -> list -> { let result = []; for item in list { if (f item) { let result = result + [item]; } } result }")
ReduceLam == Program("f -> acc -> list -> { for item in list { let acc = f acc item } acc }")

-----------------------------------------------------------------------------
(* The programs of the test bench and data in pipes: a text, bytes, or     *)
(* <<"gen", n>>, the first n characters of 0123456789abcdef again and      *)
(* again, when n is large.                                                 *)
Tools == {"vargv", "venv", "vwhere", "vcat", "vupper", "vtake", "vgen", "vcount", "vstatus", "vbytes", "vnull", "vdup", "vlast"}
Data(v) == IF v[1] \in {"bytes", "gen"} THEN v ELSE Str(Disp(v))
IsAscii(t) == ByteLen(t) = Len(t)
UpperAscii(t) == Concat([i \in 1..Len(t) |-> IF Ch(t, i) \in Lower THEN UpperOf[Ch(t, i)] ELSE Ch(t, i)])
NumOf(t) == LET v == ParseInt(t) IN IF v[1] = "int" THEN v[2] ELSE 0
\* Bytes are a text when they are all ASCII here; the bench makes only such.
BytesData(bs) == IF \A i \in 1..Len(bs) : bs[i] < 128 THEN Str(Concat([i \in 1..Len(bs) |-> CharOfCode(bs[i])])) ELSE <<"bytes", bs>>
\* What a tool prints, given its arguments, its input and the rest of what it sees.
ToolOut(path, args, in, vars, inherited, cwd) ==
    LET name == IF Contains(path, "/") THEN LastC(Comps(path)) ELSE path IN
    CASE name = "vargv" -> Str(Concat([i \in 1..Len(args) |-> "[" \o args[i] \o "]" \o NL]))
      [] name = "venv" -> Str(Concat([i \in 1..Len(args) |->
                              args[i] \o (IF args[i] \in DOMAIN vars THEN "=" \o vars[args[i]]
                                          ELSE IF args[i] \in DOMAIN inherited THEN "=" \o inherited[args[i]]
                                          ELSE " unset") \o NL]))
      [] name = "vwhere" -> Str(cwd \o NL)
      [] name = "vcat" -> in
      [] name = "vupper" -> IF in[1] = "str" THEN Str(UpperAscii(in[2])) ELSE AnyV
      [] name = "vtake" -> LET n == NumOf(args[1])
                           IN IF in[1] = "gen" THEN Gen(Min2(n, in[2]))
                              ELSE IF in[1] = "str" /\ IsAscii(in[2]) THEN Str(SubSeq(in[2], 1, Min2(n, Len(in[2]))))
                              ELSE AnyV
      [] name = "vgen" -> Gen(NumOf(args[1]))
      [] name = "vcount" -> LET t == IF in[1] = "gen" THEN "ok" ELSE IF in = Gen(Size(in)) THEN "ok" ELSE "other"
                            IN Str(NatText(Size(in)) \o " " \o t \o NL)
      [] name = "vlast" -> IF in[1] = "str" THEN LET ls == LinesOf(in[2]) IN Str(IF ls = <<>> THEN "" ELSE ls[Len(ls)] \o NL) ELSE AnyV
      [] name = "vbytes" -> BytesData([i \in 1..Len(args) |-> NumOf(args[i])])
      [] name = "vdup" -> LET c == Cat(in, in) IN IF c = <<"out">> THEN AnyV ELSE c
      [] OTHER -> Str("")

\* What starting a program by this name does: "run", or the kind of error; "?" is not decided.
\* A file with execute permission is a <<"tool">>.
Executable(f, path) ==
    LET w == Find(f, path)
    IN CASE w[1] = "new" -> "program-not-found"
         [] w[1] \in {"notdir", "nofile"} -> "command-failed"
         [] w[1] = "at" -> IF f.t[w[2]][1] = "tool" THEN "run" ELSE "permission-denied"
         [] OTHER -> "?"
\* Programs are searched for in the directories of the variable PATH which they get themselves.
SearchPath(E) == IF "PATH" \notin DOMAIN E.b THEN "" ELSE LET t == Disp(E.b["PATH"]) IN IF IsUnk(t) \/ ~StartsWith(t, "/") \/ Contains(t, ":") THEN Unk ELSE t
Startable(f, name, cwd, E) ==
    IF Contains(name, NUL) THEN "command-failed"
    ELSE IF name = "" THEN "program-not-found"
    ELSE IF Contains(name, "/") THEN Executable(f, JoinPath(cwd, name))
    ELSE IF SearchPath(E) = Unk THEN "?"
    ELSE IF SearchPath(E) # "" THEN Executable(f, SearchPath(E) \o "/" \o name)
    ELSE IF ByteLen(name) > 255 THEN "command-failed"
    ELSE IF name \in Tools THEN "run" ELSE IF name \in {".", ".."} THEN "?" ELSE "program-not-found"

\* The variables a program is given.
RECURSIVE ShownVars(_, _, _)
ShownVars(E, ns, acc) == IF ns = {} THEN acc
                         ELSE LET n == CHOOSE x \in ns : TRUE
                                  v == Lookup(E, n)
                                  t == IF n \in DOMAIN E.b THEN Disp(v) ELSE Unk
                              IN ShownVars(E, ns \ {n}, IF n \in DOMAIN E.b /\ ByteLen(t) <= 1024 /\ ~Contains(t, NUL) THEN (n :> t) @@ acc ELSE acc)
VarsFor(E, name, args) == IF EndsWith(name, "venv") THEN ShownVars(E, Range(args) \cap (DOMAIN E.b \cup E.base), EmptyB) ELSE EmptyB

RECURSIVE FlatArgs(_)
FlatArgs(vs) == IF vs = <<>> THEN <<>>
                ELSE (IF vs[1][1] = "list" THEN FlatArgs(vs[1][2]) ELSE IF vs[1][1] = "grp" THEN FlatArgs(<<vs[1][2]>>) ELSE <<vs[1]>>)
                     \o FlatArgs(Tail(vs))
ArgTexts(vs) == LET fs == SelectSeq(FlatArgs(vs), LAMBDA v : v # NoneV)
                IN [i \in 1..Len(fs) |-> IF fs[i][1] = "bytes" THEN LET d == BytesData(fs[i][2]) IN IF d[1] = "str" THEN d[2] ELSE IF 0 \in Range(fs[i][2]) THEN NUL ELSE Unk
                                         ELSE IF fs[i][1] \in Open THEN Unk ELSE Disp(fs[i])]

\* A program at the end of a line or pipe, or in the middle of one.  in is what it reads.
\* The result's value is what it printed.
RunTool(s, E, name, args, in, cwd) ==
    IF ~Stands(s.f, cwd) THEN SkipS(s)
    ELSE IF \E i \in 1..Len(args) : IsUnk(args[i]) THEN IF name \in {"vargv", "vstatus", "vnull"} THEN OkS(s, Str(IF name = "vargv" THEN Unk ELSE "")) ELSE SkipS(s)
    ELSE LET out == ToolOut(name, args, in, VarsFor(E, name, args), s.x, cwd)
         IN IF out = AnyV THEN SkipS(s) ELSE OkS(s, out)
Printed(d) == IF d[1] = "str" THEN d[2] ELSE Unk

-----------------------------------------------------------------------------
(* Logging and the console. *)
LogLevel == [error |-> 1, warn |-> 2, info |-> 3, debug |-> 4, trace |-> 5]
LogTag == [error |-> ESC \o "[91m[ERROR]" \o ESC \o "[m ", warn |-> ESC \o "[93m[WARN]" \o ESC \o "[m ",
           info |-> ESC \o "[92m[INFO]" \o ESC \o "[m ", debug |-> ESC \o "[94m[DEBUG]" \o ESC \o "[m ",
           trace |-> ESC \o "[95m[TRACE]" \o ESC \o "[m "]
LogIds == {"log@" \o n : n \in DOMAIN LogLevel}
LogText(x, tag, fresh, last) ==
    LET ls == SplitOn(x, NL)
        n == Len(ls)
    IN IF n > 1 THEN Concat([i \in 1..(n - 1) |-> tag \o ls[i] \o NL]) \o (IF ls[n] = "" THEN "" ELSE tag \o ls[n])
       ELSE (IF fresh THEN tag ELSE "") \o x \o (IF last THEN NL ELSE " ")
Enabled(s, v) == Sign(v) <= 0 \/ ICmp(s.l, v) >= 0

Moves == ("console@cursor@move-up" :> "A") @@ ("console@cursor@move-down" :> "B") @@ ("console@cursor@move-right" :> "C")
         @@ ("console@cursor@move-left" :> "D")
Escapes == ("console@clear" :> "[2J" \o ESC \o "[H") @@ ("console@cursor@save-position" :> "[s")
           @@ ("console@cursor@restore-position" :> "[u") @@ ("console@cursor@hide" :> "[?25l")
           @@ ("console@cursor@show" :> "[?25h") @@ ("console@mode@alternate" :> "[?1049h") @@ ("console@mode@normal" :> "[?1049l")
Pos(row, col, end) == ESC \o "[" \o IntText(row) \o ";" \o IntText(col) \o end
Sat(v) == IF InRange(v) THEN v ELSE <<"big", 1, Max64>>
WriteText(x, y, t) == LET ls == LinesOf(t)
                      IN Concat([i \in 1..Len(ls) |-> LET row == Sat(IAdd(y, IntV(i - 1)))
                                                      IN ESC \o "[s" \o Pos(row, x, "H") \o Pos(row, x, "f") \o ls[i] \o ESC \o "[u"])

OpWord == ("+" :> "add") @@ ("-" :> "subtract") @@ ("*" :> "multiply") @@ ("//" :> "divide") @@ ("%" :> "remainder")
FsPath1 == {"fs@canon", "fs@mkdir", "fs@rmdir", "fs@rm", "fs@ls", "fs@exists?", "fs@is-dir?", "fs@is-file?", "fs@read", "fs@glob"}
Fs1(f, id, cwd, v) ==
    LET name == Disp(v)
        path == JoinPath(cwd, name)
    IN CASE id = "fs@canon" -> Canon(f, path)
         [] id = "fs@mkdir" -> MakeDir(f, path)
         [] id = "fs@rmdir" -> RemoveDir(f, path, cwd)
         [] id = "fs@rm" -> Remove(f, path, cwd)
         [] id = "fs@ls" -> ListDir(f, path, name)
         [] id = "fs@exists?" -> KindAt(f, path, {"file", "dir"})
         [] id = "fs@is-dir?" -> KindAt(f, path, {"dir"})
         [] id = "fs@is-file?" -> KindAt(f, path, {"file"})
         [] id = "fs@read" -> ReadFile(f, path, name)
         [] OTHER -> GlobFiles(f, cwd, name)
TreeFn(f, path, depth) ==
    LET w == Find(f, path)
    IN IF w[1] = "out" \/ Contains(path \o "/", "/./") \/ Contains(path, "//") THEN FOut(f)
       ELSE FOk(f, TreeOf(f, path, IF w[1] = "at" THEN w[2] ELSE <<"">>, depth))

-----------------------------------------------------------------------------
(* Evaluation. *)
\* How deep evaluation goes.  Sessions whose recursion is either endless or very
\* shallow are decided just as well with a smaller bound, faster.
Small == "SMALL" \in DOMAIN IOEnv
MaxDepth == IF Small THEN 160 ELSE 800
MaxNested == IF Small THEN 400 ELSE 4000

RECURSIVE Ev(_, _, _), EvSeq(_, _, _, _, _), EvPairs(_, _, _, _, _), EvDo(_, _, _, _), ForR(_, _, _, _, _, _)
RECURSIVE Call(_, _, _, _), CallBi(_, _, _), EvEach(_, _, _, _, _, _), OpLoop(_, _, _, _, _), IndexLoop(_, _, _, _)
RECURSIVE PrintLoop(_, _, _, _), LogLoop(_, _, _, _, _), FoldR(_, _, _, _, _), MapR(_, _, _, _, _, _), SumR(_, _, _, _, _), SumItems(_, _, _, _, _)
RECURSIVE RunFile(_, _, _), Pipe(_, _, _, _), EvalArgs(_, _, _, _)

Ev(e, s, d) ==
    IF d > MaxDepth \/ s.n + d > MaxNested THEN ErrS(s, "recursion-depth", "recursion depth exceeded while evaluating " \o Unk)
    ELSE CASE e[1] = "quo" -> OkS(s, e[2])
           [] e[1] = "grp" -> Ev(e[2], s, d + 1)
           [] e[1] = "sym" -> LET v == Lookup(s.e, e[2]) IN OkS(s, IF v[1] = "undef" THEN e ELSE v)
           [] e[1] = "asg" -> Then(Ev(e[3], s, d + 1), LAMBDA r : OkS(DefS(r.s, e[2], r.v), NoneV))
           [] e[1] = "for" -> Then(Ev(e[3], s, d + 1), LAMBDA r :
                                 IF r.v[1] = "list" THEN ForR(e, r.v[2], 1, r.s, d, <<>>)
                                 ELSE IF r.v[1] \in Open THEN SkipS(r.s)
                                 ELSE ErrS(r.s, "for-non-list", "attempted to iterate over non-list `" \o Dbg(e[3]) \o "`"))
           [] e[1] = "if" -> Then(Ev(e[2], s, d + 1), LAMBDA r :
                                LET t == Truthy(r.v)
                                IN IF t = "?" THEN SkipS(r.s) ELSE Ev(IF t = "T" THEN e[3] ELSE e[4], r.s, d + 1))
           [] e[1] = "app" -> Then(Ev(e[2], s, d + 1), LAMBDA r : Call(e, r.v, r.s, d))
           [] e[1] = "lam" -> OkS(s, Close(e, s.e))
           [] e[1] = "list" -> Then(EvSeq(e[2], 1, s, d + 1, <<>>), LAMBDA r : OkS(r.s, ListV(r.v)))
           [] e[1] = "map" -> Then(EvPairs(e[2], 1, s, d + 1, <<>>), LAMBDA r : OkS(r.s, MapV(r.v)))
           [] e[1] = "do" -> EvDo(e[2], 1, s, d)
           [] e[1] = "gen" -> OkS(s, e)
           [] e[1] \in Open -> SkipS(s)
           [] OTHER -> OkS(s, e)

EvSeq(es, i, s, d, acc) == IF i > Len(es) THEN OkS(s, acc)
                           ELSE Then(Ev(es[i], s, d), LAMBDA r : EvSeq(es, i + 1, r.s, d, Append(acc, r.v)))
EvPairs(ps, i, s, d, acc) == IF i > Len(ps) THEN OkS(s, acc)
                             ELSE Then(Ev(ps[i][2], s, d), LAMBDA r : EvPairs(ps, i + 1, r.s, d, Append(acc, <<ps[i][1], r.v>>)))
EvDo(es, i, s, d) == IF es = <<>> THEN OkS(s, NoneV)
                     ELSE IF i = Len(es) THEN Ev(es[i], s, d + 1)
                     ELSE Then(Ev(es[i], s, d + 1), LAMBDA r : EvDo(es, i + 1, r.s, d))
ForR(e, items, i, s, d, acc) ==
    IF i > Len(items) THEN OkS(s, ListV(acc))
    ELSE Then(Ev(e[4], DefS(s, e[2], items[i]), d + 1), LAMBDA r : ForR(e, items, i + 1, r.s, d, Append(acc, r.v)))

\* e is the application, f its evaluated function.
Call(e, f, s, d) ==
    LET args == e[3]
        rest == Tail(args)
    IN CASE f[1] \in {"sym", "str"} ->
              Then(EvSeq(args, 1, s, d + 1, <<>>), LAMBDA r :
                LET cwd == Cwd(r.s.e)
                    how == Startable(r.s.f, f[2], cwd, s.e)
                    ts == ArgTexts(r.v)
                IN IF IsUnk(f[2]) THEN SkipS(r.s)
                   ELSE IF \E i \in 1..Len(ts) : Contains(ts[i], NUL) THEN ErrS(r.s, "command-failed", "command `" \o Dbg(App(<<"sym", f[2]>>, args)) \o "` failed")
                   ELSE CASE how = "run" -> Then(RunTool(r.s, s.e, f[2], ts, Str(""), cwd), LAMBDA q : OkS(Emit(q.s, Printed(q.v)), NoneV))
                          [] how = "program-not-found" -> ErrS(r.s, how, "program " \o DQ \o f[2] \o DQ \o " not found")
                          [] how = "permission-denied" -> ErrS(r.s, how, "permission denied while evaluating " \o Dbg(e))
                          [] how = "command-failed" -> ErrS(r.s, how, "command `" \o Dbg(App(<<"sym", f[2]>>, args)) \o "` failed")
                          [] OTHER -> SkipS(r.s))
         [] f[1] = "lam" /\ Len(args) >= 1 ->
              Then(Ev(args[1], s, d + 1), LAMBDA r :
                LET q == Ev(f[3], WithE(r.s, CallEnv(f, r.v, Cwd(r.s.e))), d + 1)
                    t == WithE(q.s, r.s.e)
                IN IF q.k # "ok" \/ rest = <<>> THEN [q EXCEPT !.s = t]
                   ELSE Ev(App(Quo(q.v), rest), t, d + 1))
         [] f[1] = "mac" /\ Len(args) >= 1 ->
              Then(Ev(args[1], s, d + 1), LAMBDA r :
                LET q == Ev(f[3], DefS(r.s, f[2], r.v), d + 1)
                IN IF q.k # "ok" \/ rest = <<>> THEN q
                   ELSE Ev(App(Quo(q.v), rest), q.s, d + 1))
         [] f[1] = "bi" -> LET q == CallBi(f[3], args, [s EXCEPT !.n = @ + d + 1])
                           IN [q EXCEPT !.s.n = s.n]
         [] f[1] \in Open -> SkipS(s)
         [] OTHER -> ErrS(s, "cannot-apply", "cannot apply `" \o Dbg(e[2]) \o "` to the arguments " \o ArgList(args))

\* Builtins evaluate their arguments from depth 0 on.
E0(e, s) == Ev(e, s, 0)
EvEach(id, args, i, m, s, acc) ==
    IF i > m THEN OkS(s, acc)
    ELSE Then(E0(args[i], s), LAMBDA r :
           LET bad == IF r.v[1] \in Open THEN "" ELSE Early(id, i, r.v, acc)
           IN IF bad # "" THEN Cus(r.s, bad) ELSE EvEach(id, args, i + 1, m, r.s, Append(acc, r.v)))
EvalArgs(args, i, s, acc) == IF i > Len(args) THEN OkS(s, acc)
                             ELSE Then(E0(args[i], s), LAMBDA r : EvalArgs(args, i + 1, r.s, Append(acc, r.v)))

OpLoop(op, args, i, acc, s) ==
    IF i > Len(args) THEN OkS(s, acc)
    ELSE Then(E0(acc, s), LAMBDA r : Then(E0(args[i], r.s), LAMBDA q :
           LET a == Arith(op, r.v, q.v)
           IN IF a = NoneV THEN Cus(q.s, "cannot " \o OpWord[op] \o " " \o Dbg(acc) \o " and " \o Dbg(args[i]))
              ELSE IF a = AnyV THEN SkipS(q.s)
              ELSE OpLoop(op, args, i + 1, a, q.s)))
IndexLoop(args, i, v, s) ==
    IF i > Len(args) THEN OkS(s, v)
    ELSE Then(IF args[i][1] \in {"int", "big", "sym"} THEN OkS(s, args[i]) ELSE E0(args[i], s), LAMBDA r :
           IF v[1] \in Open \/ r.v[1] \in Open \/ (IsTxt(r.v) /\ IsUnk(r.v[2])) THEN SkipS(r.s) ELSE IndexLoop(args, i + 1, IndexV(v, r.v), r.s))
PrintLoop(args, i, how, s) ==
    IF i > Len(args) THEN OkS(s, NoneV)
    ELSE Then(E0(args[i], s), LAMBDA r :
           LET t == IF how = "debug" THEN Dbg(r.v) ELSE Disp(r.v)
           IN PrintLoop(args, i + 1, how, Emit(r.s, t \o (IF i < Len(args) THEN " " ELSE IF how = "print" THEN "" ELSE NL))))
LogLoop(args, i, tag, fresh, s) ==
    IF i > Len(args) THEN OkS(s, NoneV)
    ELSE Then(E0(args[i], s), LAMBDA r :
           LET x == Disp(r.v)
           IN IF IsUnk(x) THEN SkipS(r.s)
              ELSE LogLoop(args, i + 1, tag, EndsWith(x, NL), Emit(r.s, LogText(x, tag, fresh, i = Len(args)))))
FoldR(f, acc, items, right, s) ==
    IF items = <<>> THEN OkS(s, acc)
    ELSE LET x == IF right THEN items[Len(items)] ELSE items[1]
             more == IF right THEN SubSeq(items, 1, Len(items) - 1) ELSE Tail(items)
         IN Then(E0(App(f, IF right THEN <<x, acc>> ELSE <<acc, x>>), s), LAMBDA r : FoldR(f, r.v, more, right, r.s))
MapR(f, items, i, filter, s, acc) ==
    IF i > Len(items) THEN OkS(s, ListV(acc))
    ELSE Then(E0(App(f, <<items[i]>>), s), LAMBDA r :
           IF ~filter THEN MapR(f, items, i + 1, filter, r.s, Append(acc, r.v))
           ELSE LET t == Truthy(r.v)
                IN IF t = "?" THEN SkipS(r.s) ELSE MapR(f, items, i + 1, filter, r.s, IF t = "T" THEN Append(acc, items[i]) ELSE acc))

\* acc = <<integer part, float part>>
SumOne(id, acc, v, s) ==
    LET op == IF id = "math@sum" THEN "+" ELSE "*"
    IN CASE IsInt(v) -> LET a == Arith(op, acc[1], v)
                        IN IF a = NoneV THEN Cus(s, "integer overflow with " \o IntText(acc[1]) \o " and " \o IntText(v)) ELSE OkS(s, <<a, acc[2]>>)
         [] IsFlt(v) -> OkS(s, <<acc[1], FBin(op, acc[2], v)>>)
         [] v[1] \in Open -> SkipS(s)
         [] OTHER -> Cus(s, "invalid " \o LastOf(id) \o " argument " \o Dbg(v))
SumItems(id, items, i, acc, s) ==
    IF i > Len(items) THEN OkS(s, acc)
    ELSE Then(E0(items[i], s), LAMBDA r : Then(SumOne(id, acc, r.v, r.s), LAMBDA q : SumItems(id, items, i + 1, q.v, q.s)))
SumR(id, args, i, acc, s) ==
    IF i > Len(args)
    THEN LET op == IF id = "math@sum" THEN "+" ELSE "*"
             unit == IF id = "math@sum" THEN <<"flt", 0>> ELSE <<"flt", 1024>>
         IN IF acc[2] = UnkFx THEN OkS(s, IF Flt0(acc[2]) = unit THEN acc[1] ELSE AnyV)
            ELSE OkS(s, IF Flt0(acc[2]) = unit THEN acc[1] ELSE FBin(op, acc[1], acc[2]))
    ELSE Then(E0(args[i], s), LAMBDA r :
           IF r.v[1] = "list" THEN Then(SumItems(id, r.v[2], 1, acc, r.s), LAMBDA q : SumR(id, args, i + 1, q.v, q.s))
           ELSE Then(SumOne(id, acc, r.v, r.s), LAMBDA q : SumR(id, args, i + 1, q.v, q.s)))

\* The file at a path, executed.
RunFile(path, s, own) ==
    LET w == Find(s.f, path)
    IN CASE IsUnk(path) \/ w[1] = "out" -> SkipS(s)
         [] w[1] # "at" -> Cus(s, "could not canonicalize path " \o path)
         [] s.f.t[w[2]][1] # "file" -> Cus(s, "could not read file " \o Abs(s.f, w[2]) \o ": " \o Unk)
         [] s.f.t[w[2]][2][1] = "bytes" -> Cus(s, "could not read file " \o Abs(s.f, w[2]) \o ": " \o Unk)
         [] s.f.t[w[2]][2][1] = "gen" \/ IsUnk(s.f.t[w[2]][2][2]) -> SkipS(s)
         [] OTHER -> LET e == Parse(s.f.t[w[2]][2][2])
                     IN IF e.r # "ok" THEN Cus(s, "could not parse file " \o Abs(s.f, w[2]))
                        ELSE LET r == E0(e.ast, s) IN IF own THEN r ELSE [r EXCEPT !.s.e = s.e]

\* Moving the shell to the directory at rel.
MoveTo(s, rel) == LET dir == Abs(s.f, rel) IN OkS([DefS(s, "CWD", Str(dir)) EXCEPT !.p = dir], NoneV)

(* Pipes: what a stage is run with.                                        *)
\* <<"prog", name, argument expressions>> or <<"fn">>
RECURSIVE AsProgram(_, _)
AsProgram(e, E) ==
    LET Named(n, args) == LET v == Lookup(E, n)
                          IN CASE v[1] = "undef" -> <<"prog", n, args>>
                               [] v[1] = "sym" -> <<"prog", v[2], args>>
                               [] OTHER -> <<"fn">>
    IN CASE e[1] \in {"grp", "quo"} -> AsProgram(e[2], E)
         [] e[1] = "app" -> IF IsTxt(e[2]) THEN Named(e[2][2], e[3])
                            ELSE IF e[2][1] = "quo" /\ IsTxt(e[2][2]) THEN <<"prog", e[2][2][2], e[3]>>
                            ELSE <<"fn">>
         [] e[1] = "sym" -> Named(e[2], <<>>)
         [] OTHER -> <<"fn">>
\* acc = [v |-> the value so far, d |-> the data for the next program]
Pipe(es, i, acc, s) ==
    IF i > Len(es) THEN OkS(s, acc.v)
    ELSE
    LET p == AsProgram(es[i], s.e)
        cwd == Cwd(s.e)
    IN IF p[1] = "prog"
       THEN Then(EvalArgs(p[3], 1, s, <<>>), LAMBDA r :
              LET ts == ArgTexts(r.v)
                  how == IF \E j \in 1..Len(ts) : Contains(ts[j], NUL) THEN "command-failed" ELSE Startable(r.s.f, p[2], cwd, s.e)
                  in == IF i = 1 THEN Str("") ELSE acc.d
              IN IF how = "?" \/ IsUnk(p[2]) \/ (in[1] = "str" /\ IsUnk(in[2])) THEN SkipS(r.s)
                 ELSE IF how # "run" THEN Cus(r.s, "could not spawn process `" \o Disp(es[i]) \o "`")
                 ELSE Then(RunTool(r.s, s.e, p[2], ts, in, cwd), LAMBDA q :
                        IF i = Len(es) THEN OkS(Emit(q.s, Printed(q.v)), NoneV)
                        ELSE IF q.v[1] = "str" /\ IsUnk(q.v[2]) THEN SkipS(q.s)
                        ELSE Pipe(es, i + 1, [v |-> q.v, d |-> q.v], q.s)))
       ELSE Then(E0(IF i = 1 THEN es[i] ELSE App(es[i], <<acc.v>>), s), LAMBDA r :
              Pipe(es, i + 1, [v |-> r.v, d |-> Data(r.v)], r.s))

\* Documents of other formats.
Document(kind, t) == LET r == IF kind = "parse@json" THEN Json(t) ELSE Toml(t)
                     IN CASE r[1] = "ok" -> OkV(r[2])
                          [] r[1] = "?" -> Out
                          [] OTHER -> Bad("could not parse `" \o t \o (IF kind = "parse@json" THEN "` as JSON" ELSE "` as TOML"))

Int32(v) == Mod(v, 256)
CallBi(id, args, s) ==
    LET n == Len(args)
        cwd == Cwd(s.e)
        wrong == ArgsError(id, n)
        Arg1(F(_)) == Then(E0(args[1], s), F)
        Arg2(F(_)) == Then(EvalArgs(SubSeq(args, 1, 2), 1, s, <<>>), F)
        Arg3(F(_)) == Then(EvalArgs(SubSeq(args, 1, 3), 1, s, <<>>), F)
        Given(what) == "invalid arguments to " \o what \o ": " \o Disp(ListV(args))
    IN
    IF wrong # "" THEN Cus(s, wrong)
    ELSE IF id \in PureIds THEN Then(EvEach(id, args, 1, EvCount(id, n), s, <<>>), LAMBDA r : FromLib(r.s, LibFn(id, r.v)))
    ELSE CASE
       id = "+" /\ n = 1 -> Arg1(LAMBDA r : E0(App(RevCurried(Bi("+"), 2, [NoEnv EXCEPT !.b = "CWD" :> Str("/")]), <<r.v>>), r.s))
    [] id = "-" /\ n = 1 -> Arg1(LAMBDA r :
         LET v == r.v IN
         CASE IsInt(v) -> LET m == INeg(v) IN IF InRange(m) THEN OkS(r.s, m) ELSE Cus(r.s, "cannot negate " \o Dbg(v))
           [] v[1] = "bool" -> OkS(r.s, BoolV(~v[2]))
           [] IsFlt(v) -> OkS(r.s, FNeg(v))
           [] v[1] \in Open -> SkipS(r.s)
           [] OTHER -> Cus(r.s, "cannot negate " \o Dbg(v)))
    [] id \in DOMAIN OpWord -> Arg1(LAMBDA r : OpLoop(id, args, 2, r.v, r.s))
    [] id = "@" -> Arg1(LAMBDA r : IndexLoop(args, 2, r.v, r.s))
    [] id \in {"print", "println", "debug"} -> PrintLoop(args, 1, id, s)
    [] id = "input" -> Then(EvalArgs(args, 1, s, <<>>), LAMBDA r :
         LET ask == Join([j \in 1..Len(r.v) |-> Disp(r.v[j])], " ")
             q == IF "TERM" \in DOMAIN s.x /\ s.x["TERM"] = "dumb" THEN Emit(r.s, StripAnsi(ask)) ELSE r.s
         IN IF s.i = <<>> THEN [s |-> q, k |-> "exit", v |-> 0]
            ELSE OkS([q EXCEPT !.i = Tail(@)], Str(q.i[1])))
    [] id = "report" -> Arg1(LAMBDA r : OkS(IF r.v = NoneV THEN r.s ELSE Emit(r.s, Disp(r.v) \o NL), NoneV))
    [] id = "eval" -> Arg1(LAMBDA r : LET q == E0(r.v, WithE(r.s, s.e)) IN [q EXCEPT !.s.e = r.s.e])
    [] id = "exec" -> Arg1(LAMBDA r : E0(r.v, r.s))
    [] id = "unbind" -> IF IsTxt(args[1]) THEN OkS(WithE(s, Undef(s.e, args[1][2])), NoneV)
                        ELSE Cus(s, "expected string or symbol, but got " \o Dbg(args[1]))
    [] id \in {"vars", "sys@env"} -> OkS(s, EnvMap(s.e))
    [] id = "sys@quote" -> OkS(s, Quo(args[1]))
    [] id = "sys@set" -> IF IsUnk(Disp(args[1])) THEN SkipS(s) ELSE OkS(DefS(s, Disp(args[1]), args[2]), NoneV)
    [] id = "sys@unset" -> IF IsUnk(Disp(args[1])) THEN SkipS(s) ELSE OkS(WithE(s, Undef(s.e, Disp(args[1]))), NoneV)
    [] id = "sys@defined?" -> IF IsUnk(Disp(args[1])) THEN SkipS(s) ELSE OkS(s, BoolV(Defined(s.e, Disp(args[1]))))
    [] id = "sys@cwd" -> OkS(s, Str(cwd))
    [] id = "sys@parse" -> Arg1(LAMBDA r : LET t == Disp(r.v)
                                          IN IF IsUnk(t) THEN SkipS(r.s)
                                             ELSE LET e == Parse(t) IN OkS(r.s, IF e.r = "ok" THEN e.ast ELSE NoneV))
    [] id = "parse@expr" -> Arg1(LAMBDA r : LET t == Disp(r.v)
                                           IN IF IsUnk(t) THEN SkipS(r.s)
                                              ELSE IF t = "" THEN OkS(r.s, NoneV)
                                              ELSE LET e == Parse(t) IN IF e.r = "ok" THEN OkS(r.s, e.ast)
                                                                        ELSE ErrS(r.s, "syntax-error", Render(t, e)))
    [] id \in {"parse@json", "parse@toml"} -> Arg1(LAMBDA r : IF IsUnk(Disp(r.v)) THEN SkipS(r.s)
                                                             ELSE IF id = "parse@json" /\ Disp(r.v) = "" THEN OkS(r.s, NoneV)
                                                             ELSE FromLib(r.s, Document(id, Disp(r.v))))
    [] id = "sys@include" -> Arg1(LAMBDA r : RunFile(JoinPath(cwd, Disp(r.v)), r.s, TRUE))
    [] id = "sys@import" -> Arg1(LAMBDA r : RunFile(JoinPath(cwd, Disp(r.v)), r.s, FALSE))
    [] id = "sys@cd" -> Arg1(LAMBDA r :
         LET path == JoinPath(cwd, Disp(r.v))
             w == Look(r.s.f, path)
         IN IF IsUnk(path) \/ w[1] = "out" THEN SkipS(r.s)
            ELSE IF w[1] \notin {"at", "locked", "odd"} THEN Cus(r.s, "could not canonicalize path " \o path)
            ELSE IF w[1] = "odd" THEN Cus(r.s, "could not change directory to " \o Unk)
            ELSE IF IsDirAt(r.s.f, w[2]) THEN MoveTo(r.s, w[2])
            ELSE Cus(r.s, "could not change directory to " \o Abs(r.s.f, w[2])))
    [] id = "os@cd" -> Arg1(LAMBDA r :
         LET \* A value which is not a text is evaluated once more, as its text.
             path == JoinPath(Cwd(r.s.e), Disp(r.v))
             w == Look(r.s.f, path)
         IN IF IsUnk(path) \/ w[1] = "out" \/ r.v[1] \in Open THEN SkipS(r.s)
            ELSE IF w[1] = "locked" THEN Cus(r.s, "you don't have permission to read directory " \o DebugStr(Abs(r.s.f, w[2])))
            ELSE IF w[1] = "odd" THEN Cus(r.s, "could not change directory to " \o Unk)
            ELSE IF w[1] = "nofile" THEN Cus(r.s, "could not change to directory " \o DebugStr(path) \o Unk)
            ELSE IF w[1] = "notdir" THEN Cus(r.s, "a path segment in " \o DebugStr(path) \o " is not a directory")
            ELSE IF w[1] = "new" THEN Cus(r.s, "the directory " \o DebugStr(path) \o " does not exist")
            ELSE IF IsDirAt(r.s.f, w[2]) THEN MoveTo(r.s, w[2])
            ELSE Cus(r.s, DebugStr(Abs(r.s.f, w[2])) \o " is not a directory"))
    [] id = "os@exit" -> IF n = 0 THEN [s |-> s, k |-> "exit", v |-> 0]
                         ELSE Arg1(LAMBDA r : IF IsInt(r.v) THEN [s |-> r.s, k |-> "exit", v |-> Int32(r.v)]
                                             ELSE IF r.v[1] \in Open THEN SkipS(r.s)
                                             ELSE Cus(r.s, "expected integer but got `" \o Dbg(args[1]) \o "`"))
    [] id = "list@list" -> E0(ListV(args), s)
    [] id \in {"list@foldl", "list@foldr"} -> Arg3(LAMBDA r :
         IF r.v[3][1] \in Open THEN SkipS(r.s)
         ELSE IF IsList(r.v[3]) THEN FoldR(r.v[1], r.v[2], r.v[3][2], id = "list@foldr", r.s)
         ELSE Cus(r.s, LastOf(id) \o " requires a list as its third argument"))
    [] id \in {"fn@map", "fn@filter"} /\ n = 1 -> E0(App(IF id = "fn@map" THEN MapLam ELSE FilterLam, args), s)
    [] id \in {"fn@map", "fn@filter"} -> Arg2(LAMBDA r :
         IF r.v[2][1] \in Open THEN SkipS(r.s)
         ELSE IF IsList(r.v[2]) THEN MapR(r.v[1], r.v[2][2], 1, id = "fn@filter", r.s, <<>>)
         ELSE Cus(r.s, Given(LastOf(id))))
    [] id = "fn@reduce" /\ n < 3 -> E0(App(ReduceLam, args), s)
    [] id = "fn@reduce" -> Arg3(LAMBDA r :
         IF r.v[3][1] \in Open THEN SkipS(r.s)
         ELSE IF IsList(r.v[3]) THEN FoldR(r.v[1], r.v[2], r.v[3][2], FALSE, r.s)
         ELSE Cus(r.s, Given("reduce")))
    [] id = "fn@apply" -> Arg2(LAMBDA r :
         IF r.v[2][1] \in Open THEN SkipS(r.s)
         ELSE IF IsList(r.v[2]) THEN E0(App(r.v[1], r.v[2][2]), r.s)
         ELSE Cus(r.s, "invalid arguments to apply: " \o Disp(r.v[2])))
    [] id = "fn@curry" -> Arg2(LAMBDA r :
         IF r.v[2][1] \in Open THEN SkipS(r.s)
         ELSE IF ~IsInt(r.v[2]) THEN OkS(r.s, r.v[1])
         ELSE IF Sign(r.v[2]) < 0 \/ ICmp(r.v[2], IntV(255)) > 0 THEN Cus(r.s, "cannot curry a function of " \o IntText(r.v[2]) \o " arguments")
         ELSE OkS(r.s, Curried(r.v[1], r.v[2][2], r.s.e)))
    [] id = "fn@?" -> Arg1(LAMBDA r : LET t == Truthy(r.v) IN IF t = "?" THEN SkipS(r.s) ELSE E0(IF t = "T" THEN args[2] ELSE args[3], r.s))
    [] id = "err@try" ->
         LET r == E0(args[1], s)
         IN IF r.k # "err" THEN r
            ELSE E0(App(args[2], <<MapV(<< <<"code", IntV(CodeOfErr[r.v[1]])>>, <<"expression", Quo(args[1])>>, <<"message", Str(r.v[2])>> >>)>>), r.s)
    [] id = "string@split" -> E0(App(Curried(<<"bi", "", "string@split2">>, 2, s.e), args), s)
    [] id \in {"math@sum", "math@product"} ->
         SumR(id, args, 1, IF id = "math@sum" THEN <<IntV(0), <<"flt", 0>> >> ELSE <<IntV(1), <<"flt", 1024>> >>, s)
    [] id \in LogIds -> LET name == LastOf(id)
                        IN IF Enabled(s, IntV(LogLevel[name])) THEN LogLoop(args, 1, LogTag[name], TRUE, s) ELSE OkS(s, NoneV)
    [] id = "log@get-level" -> OkS(s, s.l)
    [] id = "log@disable" -> OkS([s EXCEPT !.l = IntV(0)], NoneV)
    [] id \in {"log@set-level", "log@enabled?"} -> Arg1(LAMBDA r :
         IF r.v[1] \in Open THEN SkipS(r.s)
         ELSE IF ~IsInt(r.v) THEN Cus(r.s, "expected an integer, found " \o Disp(r.v))
         ELSE IF id = "log@enabled?" THEN OkS(r.s, BoolV(Enabled(r.s, r.v)))
         ELSE OkS([r.s EXCEPT !.l = r.v], NoneV))
    [] id \in DOMAIN Escapes -> OkS(Emit(s, ESC \o Escapes[id]), NoneV)
    [] id \in DOMAIN Moves -> Arg1(LAMBDA r :
         IF r.v[1] \in Open THEN SkipS(r.s)
         ELSE IF IsInt(r.v) THEN OkS(Emit(r.s, ESC \o "[" \o IntText(r.v) \o Moves[id]), NoneV)
         ELSE Cus(r.s, "expected first argument to be an integer, but got: `" \o Dbg(r.v) \o "`"))
    [] id \in {"console@cursor@move-to", "console@write"} -> Then(EvalArgs(args, 1, s, <<>>), LAMBDA r :
         IF r.v[1][1] \in Open \/ r.v[2][1] \in Open THEN SkipS(r.s)
         ELSE IF ~IsInt(r.v[1]) \/ ~IsInt(r.v[2])
         THEN Cus(r.s, "expected first two arguments to be integers, but got: `" \o Dbg(r.v[1]) \o "`, `" \o Dbg(r.v[2]) \o "`")
         ELSE IF id = "console@write" THEN IF IsUnk(Disp(r.v[3])) THEN SkipS(r.s) ELSE OkS(Emit(r.s, WriteText(r.v[1], r.v[2], Disp(r.v[3]))), NoneV)
         ELSE OkS(Emit(r.s, Pos(r.v[2], r.v[1], "f")), NoneV))
    [] id = "console@title" -> Arg1(LAMBDA r : OkS(Emit(r.s, ESC \o "]2;" \o Disp(r.v) \o ESC \o "[0m"), NoneV))
    [] id \in {"console@width", "console@height"} -> OkS(s, NoneV)
    [] id = "console@flush" -> OkS(s, NoneV)
    [] id = "time@now" -> OkS(s, AnyV)
    [] id = "time@sleep" -> Arg1(LAMBDA r : IF r.v[1] \in Open THEN SkipS(r.s)
                                           ELSE IF IsNum(r.v) THEN OkS(r.s, NoneV)
                                           ELSE Cus(r.s, "expected integer or float, but got " \o Disp(r.v)))
    [] id \in FsPath1 -> Arg1(LAMBDA r : IF IsUnk(Disp(r.v)) \/ r.v[1] \in Open \/ (id = "fs@glob" /\ Cwd(r.s.e) # cwd) THEN SkipS(r.s)
                                        ELSE FromFs(r.s, Fs1(r.s.f, id, cwd, r.v)))
    [] id = "fs@write" -> Arg2(LAMBDA r : IF IsUnk(Disp(r.v[1])) \/ (r.v[2][1] # "gen" /\ ~Clear(Data(r.v[2]))) THEN SkipS(r.s)
                                         ELSE FromFs(r.s, WriteFile(r.s.f, JoinPath(cwd, Disp(r.v[1])), Disp(r.v[1]), r.v[2])))
    [] id = "fs@append" -> Arg1(LAMBDA r :
         LET path == JoinPath(cwd, Disp(r.v))
             can == CanAppend(r.s.f, path)
         IN IF IsUnk(path) \/ can = "?" THEN SkipS(r.s)
            ELSE IF can = "F" THEN Cus(r.s, "could not open file " \o Disp(r.v) \o ": " \o Unk)
            ELSE Then(E0(args[2], r.s), LAMBDA q : IF q.v[1] # "gen" /\ (q.v[1] \in Open \/ ~Clear(Data(q.v))) THEN SkipS(q.s) ELSE FromFs(q.s, AppendFile(q.s.f, path, q.v))))
    [] id \in {"fs@mv", "fs@cp"} -> Arg2(LAMBDA r :
         LET a == JoinPath(cwd, Disp(r.v[1]))
             b == JoinPath(cwd, Disp(r.v[2]))
         IN IF IsUnk(a) \/ IsUnk(b) THEN SkipS(r.s)
            ELSE FromFs(r.s, IF id = "fs@mv" THEN Rename(r.s.f, a, b, cwd) ELSE Copy(r.s.f, a, b)))
    [] id \in {"fs@head", "fs@tail"} -> Arg2(LAMBDA r :
         LET name == Disp(r.v[1])
         IN IF IsUnk(name) \/ r.v[2][1] \in Open THEN SkipS(r.s)
            ELSE IF ~IsInt(r.v[2]) THEN Cus(r.s, "second argument to " \o LastOf(id) \o " must be an integer")
            ELSE FromFs(r.s, SomeLines(r.s.f, JoinPath(cwd, name), name, LastOf(id), r.v[2])))
    [] id = "fs@tree" -> Arg1(LAMBDA r :
         IF r.v[1] \in Open THEN SkipS(r.s)
         ELSE IF IsInt(r.v)
         THEN Then(IF n = 2 THEN E0(args[2], r.s) ELSE OkS(r.s, NoneV), LAMBDA q :
                IF q.v[1] \in Open THEN SkipS(q.s)
                ELSE FromFs(q.s, TreeFn(q.s.f, IF IsTxt(q.v) THEN JoinPath(cwd, q.v[2]) ELSE cwd,
                                        IF Sign(r.v) <= 0 THEN 0 ELSE IF r.v[1] = "big" THEN -1 ELSE r.v[2])))
         ELSE FromFs(r.s, TreeFn(r.s.f, IF IsTxt(r.v) THEN JoinPath(cwd, r.v[2]) ELSE cwd, -1)))
    [] id = "|" -> Pipe(args, 1, [v |-> NoneV, d |-> Str("")], s)
    [] OTHER -> SkipS(s)
=============================================================================
