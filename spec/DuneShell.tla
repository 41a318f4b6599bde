----------------------------- MODULE DuneShell ------------------------------
(***************************************************************************)
(* The program dunesh: what one run of it does, given a command line, the  *)
(* files it finds and the lines on its standard input.                     *)
(*                                                                         *)
(* A run h has                                                             *)
(*   s     the state of the evaluator (DuneEval); s.o is what has been     *)
(*         printed on standard output, s.i the lines which are left on     *)
(*         standard input                                                  *)
(*   err   what has been reported on standard error                        *)
(*   pend  the lines of an entry which is not complete yet                 *)
(*   ph    the phase: "file", "exec", "prelude", "repl", "end", or "skip"  *)
(*         when the specification does not decide what comes               *)
(*   code  the exit status                                                 *)
(*   cl    the command line: [file |-> path or "", exec |-> the words of   *)
(*         -x, hasx, inter]                                                *)
(*   home  the directory HOME names                                        *)
(*   log   the texts which were run, in order (a history variable)         *)
(***************************************************************************)
EXTENDS DuneEval

Shown(h) == "TERM" \in DOMAIN h.s.x /\ h.s.x["TERM"] = "dumb"
Report(h, m) == [h EXCEPT !.err = @ \o m \o NL]
ExitRun(h, code) == [h EXCEPT !.ph = "end", !.code = code]
\* What follows an evaluation, unless it ended the process.
After(h, r, F(_)) == LET g == [h EXCEPT !.s = r.s]
                     IN CASE r.k = "skip" -> [g EXCEPT !.ph = "skip"]
                          [] r.k = "exit" -> ExitRun(g, r.v)
                          [] OTHER -> F(g)
Ran(h, text) == [h EXCEPT !.log = Append(@, text)]
\* A text is run as a whole, or not at all; F gets the run and the value, G the message.
RunText(h, text, F(_, _), G(_, _)) ==
    LET e == Parse(text)
    IN IF e.r # "ok" THEN G(h, Render(text, e))
       ELSE LET r == Ev(e.ast, h.s, 0)
            IN After(Ran(h, text), r, LAMBDA g : IF r.k = "ok" THEN F(g, r.v) ELSE G(g, r.v[2]))
RunFileText(h, path, F(_, _), G(_, _)) ==
    LET w == Find(h.s.f, path)
        node == h.s.f.t[w[2]]
    IN IF w[1] = "out" THEN [h EXCEPT !.ph = "skip"]
       ELSE IF w[1] # "at" THEN G(h, "Failed to read file: " \o Unk)
       ELSE IF node[1] # "file" THEN IF node[1] = "dir" THEN G(h, "Failed to read file: " \o Unk) ELSE [h EXCEPT !.ph = "skip"]
       ELSE IF node[2][1] = "bytes" THEN G(h, "Failed to read file: " \o Unk)
       ELSE IF node[2][1] = "gen" \/ IsUnk(node[2][2]) THEN [h EXCEPT !.ph = "skip"]
       ELSE RunText(h, node[2][2], F, G)
Reported(h, e) == Ev(App(<<"sym", "report">>, <<e>>), h.s, 0)

\* The files and the inline code.
FileStep(h) ==
    LET go(g) == IF g.cl.hasx THEN [g EXCEPT !.ph = "exec"] ELSE IF g.cl.inter THEN [g EXCEPT !.ph = "prelude"] ELSE ExitRun(g, 0)
    IN IF h.cl.file = "" THEN [h EXCEPT !.ph = IF h.cl.hasx THEN "exec" ELSE "prelude"]
       ELSE RunFileText(h, JoinPath(h.s.p, h.cl.file), LAMBDA g, v : go(g), LAMBDA g, m : go(Report(g, m)))
ExecStep(h) ==
    LET go(g) == IF g.cl.inter THEN [g EXCEPT !.ph = "prelude"] ELSE ExitRun(g, 0)
    IN RunText(h, Join(h.cl.exec, " "),
         LAMBDA g, v : LET r == Reported(g, Quo(v))
                       IN After(g, r, LAMBDA q : go(IF r.k = "ok" THEN q ELSE Report(q, r.v[2]))),
         LAMBDA g, m : go(Report(g, m)))

\* A line is asked for.
Asked(h, prompt) == IF Shown(h) THEN [h EXCEPT !.s.o = @ \o StripAnsi(prompt)] ELSE h
PreludeStep(h) ==
    LET path == h.home \o "/.dune-prelude"
        w == Find(h.s.f, path)
        on(g) == [g EXCEPT !.ph = "repl"]
        \* y or n
        ask(g, t) == LET q == Asked(g, t)
                     IN IF q.s.i = <<>> THEN ExitRun(q, 0)
                        ELSE IF q.s.i[1] \in {"n", "no", ""} /\ w[1] = "at" THEN on([q EXCEPT !.s.i = Tail(@)])
                        ELSE [q EXCEPT !.ph = "skip"]
        yn == NL \o "Would you like me to write the default prelude to this location? (y/n)" \o NL \o ">>> "
    IN IF w[1] = "out" THEN [h EXCEPT !.ph = "skip"]
       ELSE IF w[1] # "at" THEN ask(h, "Could not find prelude file at: " \o path \o yn)
       ELSE RunFileText(h, path, LAMBDA g, v : on(g), LAMBDA g, m : ask(g, "Error while running custom prelude: " \o m \o yn))

(* The prompt.  One step: the prompt is made and shown, a line is read, and when it completes the entry, that is run. *)
Said(h, r) == After(h, r, LAMBDA g : IF r.k = "err" THEN Report(g, r.v[2]) ELSE g)
Finish(h, v) ==
    CASE v[1] = "sym" -> Said(h, Ev(App(v, <<>>), h.s, 0))
      [] v = NoneV -> h
      [] v[1] = "mac" -> Said(h, Reported(h, App(v, <<Str(Cwd(h.s.e))>>)))
      [] OTHER -> Said(h, Reported(h, Quo(v)))
TakeLine(h) ==
    IF h.s.i = <<>> THEN ExitRun(h, 0)
    ELSE LET line == h.s.i[1]
             lines == Append(h.pend, line)
             text == Join(lines, NL)
             g == [h EXCEPT !.s.i = Tail(@)]
         IN IF Parse(text).r = "ok"
            THEN RunText([g EXCEPT !.pend = <<>>], text, LAMBDA q, v : Finish(q, v), LAMBDA q, m : Report(q, m))
            ELSE IF line = "" THEN [Report(g, Render(text, Parse(text))) EXCEPT !.pend = <<>>]
            ELSE [g EXCEPT !.pend = lines]
ReplStep(h) ==
    LET cwd == Cwd(h.s.e)
        r == Ev(App(<<"sym", IF h.pend = <<>> THEN "prompt" ELSE "incomplete_prompt">>, <<Str(cwd)>>), h.s, 0)
    IN After(h, r, LAMBDA g : TakeLine(Asked(g, IF r.k = "ok" THEN Disp(r.v) ELSE cwd \o "$ ")))

Step(h) == CASE h.ph = "file" -> FileStep(h)
             [] h.ph = "exec" -> ExecStep(h)
             [] h.ph = "prelude" -> PreludeStep(h)
             [] h.ph = "repl" -> ReplStep(h)
             [] OTHER -> h
Over(h) == h.ph \in {"end", "skip"}
Begin(cwd, f, inh, home, cl, lines) ==
    [s |-> [e |-> [b |-> "CWD" :> Str(cwd), base |-> DOMAIN Base], o |-> "", l |-> IntV(0), n |-> 0, f |-> f, p |-> cwd, x |-> inh, i |-> lines],
     err |-> "", pend |-> <<>>, ph |-> "file", code |-> -1, cl |-> cl, home |-> home, log |-> <<>>]
=============================================================================
