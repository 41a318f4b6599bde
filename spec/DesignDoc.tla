------------------------------ MODULE DesignDoc ------------------------------
(***************************************************************************)
(* Values are built step by step; in every state the value is written in   *)
(* several layouts, and reading it has to give it back.  No proper part at *)
(* the front of a written container is a document, nor is one with         *)
(* something after it.                                                     *)
(***************************************************************************)
EXTENDS DuneToml
CONSTANT Largest      \* the most nodes of a value
Layouts == {"", " ", NL}  \* ways of writing: the texts between tokens
VARIABLES v, n
vars == <<v, n>>

Keys2 == {"a", "b c", "\"", ""}
Leaves == {NoneV, BoolV(TRUE), <<"flt", 1536>>, <<"fx", "-0.0">>, <<"fx", "1e22">>, Str(""), Str("a\n\"\\"), Str("[1"), <<"list", <<>>>>, MapV(<<>>)}
Init == v \in Leaves /\ n = 1
\* A value gets into a list or a table, beside others.
Next == /\ n < Largest /\ n' = n + 1
        /\ \/ v' = ListV(<<v>>)
           \/ \E x \in Leaves : v' = ListV(<<x, v>>) \/ (IF v[1] = "list" THEN v' = ListV(Append(v[2], x)) ELSE FALSE)
           \/ \E k \in Keys2 : v' = IF v[1] = "map" THEN MapV(PutPair(v[2], k, v)) ELSE MapV(<< <<k, v>> >>)
Spec == Init /\ [][Next]_vars

WQuoted(t) == DQ \o Concat([i \in 1..Len(t) |-> CASE Ch(t, i) = DQ -> BS \o DQ [] Ch(t, i) = BS -> BS \o BS [] Ch(t, i) = NL -> BS \o "n" [] OTHER -> Ch(t, i)]) \o DQ
NumberText(x) == IF x[1] = "flt" THEN FltText(x[2]) \o (IF x[2] % 1024 = 0 THEN ".0" ELSE "") ELSE x[2]
RECURSIVE WriteJson(_, _), WriteToml(_, _)
WriteJson(x, w) ==
    CASE x[1] = "none" -> "null" [] x[1] = "bool" -> IF x[2] THEN "true" ELSE "false"
      [] x[1] = "str" -> WQuoted(x[2]) [] x[1] \in {"flt", "fx"} -> NumberText(x)
      [] x[1] = "list" -> "[" \o w \o Join([i \in 1..Len(x[2]) |-> WriteJson(x[2][i], w) \o w], "," \o w) \o "]"
      [] OTHER -> "{" \o w \o Join([i \in 1..Len(x[2]) |-> WQuoted(x[2][i][1]) \o w \o ":" \o w \o WriteJson(x[2][i][2], w) \o w], "," \o w) \o "}"
\* Inline; TOML has no null.
WriteToml(x, w) ==
    CASE x[1] = "bool" -> IF x[2] THEN "true" ELSE "false"
      [] x[1] = "str" -> WQuoted(x[2]) [] x[1] \in {"flt", "fx"} -> NumberText(x)
      [] x[1] = "list" -> "[" \o w \o Join([i \in 1..Len(x[2]) |-> WriteToml(x[2][i], w) \o w], "," \o w) \o "]"
      [] OTHER -> "{" \o Join([i \in 1..Len(x[2]) |-> WQuoted(x[2][i][1]) \o " = " \o WriteToml(x[2][i][2], w)], ", ") \o "}"
RECURSIVE ForToml(_)
ForToml(x) == CASE x[1] = "none" -> FALSE
                [] x[1] = "list" -> \A i \in 1..Len(x[2]) : ForToml(x[2][i])
                [] x[1] = "map" -> \A i \in 1..Len(x[2]) : x[2][i][1] # "" /\ ForToml(x[2][i][2])
                [] OTHER -> TRUE
InToml == ForToml(v)

JsonBack == \A w \in Layouts : Json(w \o WriteJson(v, w) \o w) = <<"ok", v>>
TomlBack == InToml => \A w \in Layouts : Toml("k = " \o WriteToml(v, w) \o NL) = <<"ok", MapV(<< <<"k", v>> >>)>>
\* Tables with headers say the same as inline ones.
Headed == InToml /\ v[1] = "map" =>
            LET lines == Join([i \in 1..Len(v[2]) |-> WQuoted(v[2][i][1]) \o " = " \o WriteToml(v[2][i][2], "") \o NL], "")
            IN /\ Toml(lines) = <<"ok", v>>
               /\ Toml("[k]" \o NL \o lines) = <<"ok", MapV(<< <<"k", v>> >>)>>
               /\ Toml("[[k]]" \o NL \o lines \o "[[k]]" \o NL) = <<"ok", MapV(<< <<"k", ListV(<<v, MapV(<<>>)>>)>> >>)>>
Cut == LET t == WriteJson(v, "")
       IN /\ v[1] \in {"list", "map", "str", "bool", "none"} => \A i \in 0..(Len(t) - 1) : Json(SubSeq(t, 1, i)) = NoDoc
          /\ \A x \in {",", "1", "]", "}", t} : v[1] \in {"list", "map"} => Json(t \o x) = NoDoc
          /\ Json(t \o "," ) = NoDoc
Twice == InToml => Toml("k = " \o WriteToml(v, "") \o NL \o "k = 1") = NoDoc
=============================================================================
