------------------------------ MODULE DesignCli -----------------------------
(***************************************************************************)
(* The command line, checked on the specification by itself: every         *)
(* combination of files, inline code, -i and input.                        *)
(***************************************************************************)
EXTENDS DuneShell
VARIABLES h, cl, in
vars == <<h, cl, in>>
Files == [x \in {<<>>, <<"ok">>, <<"bad">>, <<"err">>, <<"exit">>, <<"dir">>, <<"raw">>, <<".dune-prelude">>} |->
    CASE x = <<>> \/ x = <<"dir">> -> <<"dir">>
      [] x = <<"ok">> -> TextFile("let x = 1; println \"file\"")
      [] x = <<"bad">> -> TextFile("println \"never\"; )")
      [] x = <<"err">> -> TextFile("let x = 2; zz 1; println \"never\"")
      [] x = <<"exit">> -> TextFile("println \"file\"; exit 5; println \"never\"")
      [] x = <<"raw">> -> <<"file", <<"bytes", <<255>> >> >>
      [] OTHER -> TextFile("let p = 1")]
FileNames == {"", "ok", "bad", "err", "exit", "dir", "raw", "none"}
Words == {<<>>, <<"print", "1">>, <<"let y =", "x">>, <<"print 1;", ")">>, <<"print 1;", "zz 1;", "print 2">>, <<"exit", "6">>, <<"x">>, <<"let report = v -> zz v">>}
Inputs == {<<>>, <<"println 3">>, <<"println p; exit 7", "println 4">>, <<"zz 3", "{", "", "exit 300">>}
Init == /\ h = <<>>
        /\ cl \in [file : FileNames, exec : Words, hasx : BOOLEAN, inter : BOOLEAN]
        /\ cl.hasx = (cl.exec # <<>>)
        /\ in \in Inputs
Next == /\ UNCHANGED <<cl, in>>
        /\ IF h = <<>> THEN h' = Begin("/r", [root |-> <<"r">>, t |-> Files], EmptyB, "/r", cl, in)
           ELSE ~Over(h) /\ h' = Step(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TextOf(f) == IF f \in {"", "none", "dir", "raw"} THEN "" ELSE Files[<<f>>][2][2]
Parses(t) == t # "" /\ Parse(t).r = "ok"
Given(x) == IF x THEN 1 ELSE 0
FileText == IF Parses(TextOf(cl.file)) THEN <<TextOf(cl.file)>> ELSE <<>>
ExecText == IF cl.hasx /\ Parses(Join(cl.exec, " ")) THEN <<Join(cl.exec, " ")>> ELSE <<>>
Prompts == cl.inter \/ (cl.file = "" /\ ~cl.hasx)
IsPfx(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Live == h # <<>>
Done == Live /\ h.ph = "end"
\* In this order, each at most once.
InOrder == Live => IF Prompts THEN IsPfx(h.log, FileText \o ExecText \o <<"let p = 1">>) \/ IsPfx(FileText \o ExecText \o <<"let p = 1">>, h.log)
                   ELSE IsPfx(h.log, FileText \o ExecText)
\* Without the prompt no input is read; with it all of it, unless something exits.
ReadsInput == Done => IF ~Prompts THEN h.s.i = in ELSE (h.s.i = <<>> \/ h.code # 0)
Failing == (IF cl.file # "" /\ (FileText = <<>> \/ cl.file = "err") THEN 1 ELSE 0) + (IF cl.hasx /\ (ExecText = <<>> \/ Range(cl.exec) \cap {"zz 1;", "let report = v -> zz v"} # {}) THEN 1 ELSE 0)
Reports == Done /\ ~Prompts /\ cl.file # "exit" => (h.err # "") = (Failing > 0)
\* exit ends the run at once, and only it makes the status other than 0.
AtOnce == Done => IF cl.file = "exit" THEN h.code = 5 /\ h.log = FileText /\ h.s.o = "file" \o NL
                  ELSE IF "exit" \in Range(cl.exec) THEN h.code = 6 ELSE h.code \in {0, 7, 44}
\* What ran before is there for what comes later, also after a failure.
OneShell == Done /\ cl.exec = <<"let y =", "x">> /\ cl.file # "exit" =>
              (cl.file \in {"ok", "err"}) = (Lookup(h.s.e, "y") = Lookup(h.s.e, "x") /\ Lookup(h.s.e, "x") # <<"undef">>)
Ends == <>(Live /\ Over(h))
=============================================================================
