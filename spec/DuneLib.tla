------------------------------ MODULE DuneLib ------------------------------
(***************************************************************************)
(* The library: how many arguments every builtin takes, and the values of  *)
(* the builtins which compute a value from those of their arguments.  The  *)
(* ones which evaluate code, print or touch the system are in DuneEval.    *)
(*                                                                         *)
(* A builtin is named by its module and its name there: "list@take".       *)
(***************************************************************************)
EXTENDS DuneValue

OkV(v) == <<"ok", v>>
Bad(m) == <<"err", m>>
Out == <<"skip", NoneV>>      \* not decided by the specification
IV(n) == OkV(IntV(n))
StrsV(ts) == ListV([i \in 1..Len(ts) |-> Str(ts[i])])
IsTxt(v) == v[1] \in {"str", "sym"}
IsList(v) == v[1] = "list"
IsMap(v) == v[1] = "map"

-----------------------------------------------------------------------------
(* Characters. *)
UpperOf == [c \in Lower |-> Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", CHOOSE i \in 1..26 : Ch("abcdefghijklmnopqrstuvwxyz", i) = c)]
LowerOf == [c \in Upper |-> Ch("abcdefghijklmnopqrstuvwxyz", CHOOSE i \in 1..26 : Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i) = c)]
WideUpper == [c \in Wide |-> (CHOOSE p \in Range(Uni.upper) : p[1] = c)[2]]
WideLower == [c \in Wide |-> (CHOOSE p \in Range(Uni.lower) : p[1] = c)[2]]
UpChar(c) == IF c \in Lower THEN UpperOf[c] ELSE IF c \in Wide THEN WideUpper[c] ELSE c
LowChar(c) == IF c \in Upper THEN LowerOf[c] ELSE IF c \in Wide THEN WideLower[c] ELSE c
WsChars == {p[1] : p \in {q \in Range(Uni.order) : q[2] \in {9, 10, 11, 12, 13, 32}}} \cup Range(Uni.ws)
AlphaChars == Alpha \cup Range(Uni.alpha)
NumChars == Digits \cup Range(Uni.numeric)
LowChars == Lower \cup Range(Uni.islower)
UpChars == Upper \cup Range(Uni.isupper)
AllIn(t, C) == \A i \in 1..Len(t) : Ch(t, i) \in C

RECURSIVE MapText1(_, _, _, _)
MapText1(t, i, kind, acc) ==
    IF i > Len(t) THEN acc
    ELSE LET c == Ch(t, i)
             w == CASE kind = "up" -> UpChar(c)
                    [] kind = "low" -> LowChar(c)
                    [] OTHER -> IF i = 1 \/ Ch(t, i - 1) \in WsChars THEN Ch(UpChar(c), 1) ELSE Ch(LowChar(c), 1)
         IN MapText1(t, i + 1, kind, acc \o w)
RevText(t) == Concat([i \in 1..Len(t) |-> Ch(t, Len(t) + 1 - i)])
RECURSIVE RTrim(_, _), WordsR(_, _, _), StripR(_, _, _, _), LastOf(_)
RTrim(t, n) == IF n = 0 THEN "" ELSE IF Ch(t, n) \in WsChars THEN RTrim(t, n - 1) ELSE SubSeq(t, 1, n)
TrimEnd(t) == RTrim(t, Len(t))
TrimStart(t) == SubSeq(t, SkipIn(t, 1, WsChars), Len(t))
WordsR(t, i, acc) == LET a == SkipIn(t, i, WsChars)
                         b == SkipTo(t, a, WsChars)
                     IN IF a > Len(t) THEN acc ELSE WordsR(t, b, Append(acc, SubSeq(t, a, b - 1)))
StripR(t, i, in, acc) == IF i > Len(t) THEN acc
                         ELSE IF Ch(t, i) = ESC THEN StripR(t, i + 1, TRUE, acc)
                         ELSE IF in THEN StripR(t, i + 1, Ch(t, i) # "m", acc)
                         ELSE StripR(t, i + 1, FALSE, acc \o Ch(t, i))
StripAnsi(t) == StripR(t, 1, FALSE, "")
\* The number of characters in the first n bytes, or -1 when that is inside one.
RECURSIVE BoundaryR(_, _, _)
BoundaryR(t, n, i) == IF n = 0 THEN i ELSE IF n < 0 \/ i = Len(t) THEN -1
                      ELSE BoundaryR(t, n - Width(Ch(t, i + 1)), i + 1)
Boundary(t, v) == IF v[1] # "int" \/ v[2] < 0 THEN -1 ELSE BoundaryR(t, v[2], 0)
LowerAbc == "abcdefghijklmnopqrstuvwxyz"
PosOf == [c \in Lower |-> CHOOSE i \in 1..26 : Ch(LowerAbc, i) = c]
Rotated(c, k) == LET p == (PosOf[c] - 1 + k) % 26 IN Ch(LowerAbc, p + 1)
CaesarChar(c, k) == IF c \in Lower THEN Rotated(c, k)
                    ELSE IF c \in Upper THEN UpperOf[Rotated(LowerOf[c], k)]
                    ELSE c
\* The mathematical remainder of an integer by a small positive number.
Mod(v, m) == LET r == IRem(v, IntV(m))[2] IN IF r < 0 THEN r + m ELSE r

-----------------------------------------------------------------------------
(* Numbers. *)
FSmall(k) == -1000000000 < k /\ k < 1000000000
FOf(r) == IF r[1] = "int" /\ FSmall(r[2]) THEN <<"flt", r[2]>> ELSE UnkFx
FNeg(v) == CASE v[1] = "flt" -> IF v[2] = 0 THEN <<"fx", "-0.0">> ELSE <<"flt", -v[2]>>
             [] v[2] = "-0.0" -> <<"flt", 0>>
             [] v[2] \in {Unk, "NaN"} -> UnkFx
             [] Ch(v[2], 1) = "-" -> <<"fx", SubSeq(v[2], 2, Len(v[2]))>>
             [] OTHER -> <<"fx", "-" \o v[2]>>
ToF(v) == IF IsFlt(v) THEN v ELSE IF v[1] = "int" /\ v[2] > -976000 /\ v[2] < 976000 THEN <<"flt", 1024 * v[2]>> ELSE UnkFx
FBin(op, x, y) ==
    LET a == ToF(x)
        b == ToF(y)
        neg == (a[2] < 0) # (b[2] < 0)
        Signed(r) == IF r = <<"flt", 0>> /\ neg THEN <<"fx", "-0.0">> ELSE r
    IN IF a[1] # "flt" \/ b[1] # "flt" THEN UnkFx
       ELSE CASE op = "+" -> FOf(IAdd(IntV(a[2]), IntV(b[2])))
              [] op = "-" -> FOf(ISub(IntV(a[2]), IntV(b[2])))
              [] op = "*" -> LET p == IMul(IntV(a[2]), IntV(b[2]))
                             IN IF Sign(IRem(p, IntV(1024))) # 0 THEN UnkFx ELSE Signed(FOf(IQuo(p, IntV(1024))))
              [] OTHER -> IF b[2] = 0 THEN UnkFx
                          ELSE LET p == IMul(IntV(a[2]), IntV(1024))
                               IN IF Sign(IRem(p, IntV(b[2]))) # 0 THEN UnkFx ELSE Signed(FOf(IQuo(p, IntV(b[2]))))
IsNum(v) == IsInt(v) \/ IsFlt(v)
Checked(r) == IF InRange(r) THEN r ELSE NoneV

\* A count as the library takes it: negative numbers are beyond every length.
Idx(v, len) == IF v[1] = "int" /\ v[2] >= 0 THEN Min2(v[2], len + 1) ELSE IF v[1] = "big" /\ v[2] > 0 THEN len + 1 ELSE len + 1
RECURSIVE RepSeq(_, _)
RepSeq(xs, n) == IF n <= 0 THEN <<>> ELSE xs \o RepSeq(xs, n - 1)
RemoveAt(xs, i) == SubSeq(xs, 1, i - 1) \o SubSeq(xs, i + 1, Len(xs))
InsertAt(xs, i, x) == SubSeq(xs, 1, i - 1) \o <<x>> \o SubSeq(xs, i, Len(xs))

(* Maps are sequences of pairs in the order of their keys. *)
HasKey(m, k) == \E i \in 1..Len(m) : m[i][1] = k
GetKey(m, k) == IF HasKey(m, k) THEN m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2] ELSE NoneV
DropKey(m, k) == SelectSeq(m, LAMBDA p : p[1] # k)
RECURSIVE PutAll(_, _)
PutAll(m, ps) == IF ps = <<>> THEN m ELSE PutAll(PutKey(m, ps[1][1], ps[1][2]), Tail(ps))

\* Too large for the specification to build; the shell may or may not have the memory.
TooLong(len, n) == len > 0 /\ (n[1] = "big" \/ len * Min2(n[2], 1000000) > 5000)
Impossible(len, n) == len > 0 /\ n[1] = "big" /\ MCmp(MMul(MOfNat(len), n[3]), Max64) > 0
Repeat(v, n) == IF Sign(n) <= 0 THEN IF v[1] = "str" THEN Str("") ELSE ListV(<<>>)
                ELSE IF v[1] = "str" THEN Str(IF v[2] = "" THEN "" ELSE Rep(v[2], n[2])) ELSE ListV(IF v[2] = <<>> THEN <<>> ELSE RepSeq(v[2], n[2]))

\* The operators + - * // %: a value, none, or open.
Arith(op, a, b) ==
    CASE a[1] \in Open \/ b[1] \in Open -> AnyV
      [] IsInt(a) /\ IsInt(b) ->
           (CASE op = "+" -> Checked(IAdd(a, b))
             [] op = "-" -> Checked(ISub(a, b))
             [] op = "*" -> Checked(IMul(a, b))
             [] op = "//" -> IF Sign(b) = 0 THEN NoneV ELSE Checked(IQuo(a, b))
             [] OTHER -> IF Sign(b) = 0 THEN NoneV ELSE IRem(a, b))
      [] op # "%" /\ IsNum(a) /\ IsNum(b) -> FBin(op, a, b)
      [] op = "+" /\ a[1] = b[1] /\ a[1] = "str" -> Str(a[2] \o b[2])
      [] op = "+" /\ a[1] = b[1] /\ a[1] \in {"bytes", "list"} -> <<a[1], a[2] \o b[2]>>
      [] op = "-" /\ IsMap(a) /\ b[1] = "str" -> GetKey(a[2], b[2])
      [] op = "-" /\ IsList(a) /\ b[1] = "int" -> IF 0 <= b[2] /\ b[2] < Len(a[2]) THEN a[2][b[2] + 1] ELSE NoneV
      [] op = "*" /\ a[1] \in {"str", "list"} /\ IsInt(b) -> IF Sign(b) > 0 /\ TooLong(IF a[1] = "str" THEN ByteLen(a[2]) ELSE Len(a[2]), b)
                                                               THEN IF Impossible(IF a[1] = "str" THEN ByteLen(a[2]) ELSE Len(a[2]), b) THEN NoneV ELSE AnyV
                                                               ELSE Repeat(a, b)
      [] op = "*" /\ b[1] \in {"str", "list"} /\ IsInt(a) -> IF Sign(a) > 0 /\ TooLong(IF b[1] = "str" THEN ByteLen(b[2]) ELSE Len(b[2]), a)
                                                               THEN IF Impossible(IF b[1] = "str" THEN ByteLen(b[2]) ELSE Len(b[2]), a) THEN NoneV ELSE AnyV
                                                               ELSE Repeat(b, a)
      [] OTHER -> NoneV

IndexV(v, i) == CASE IsMap(v) /\ IsTxt(i) -> GetKey(v[2], i[2])
                  [] IsList(v) /\ i[1] = "int" -> IF 0 <= i[2] /\ i[2] < Len(v[2]) THEN v[2][i[2] + 1] ELSE NoneV
                  [] OTHER -> NoneV

RECURSIVE IntPow(_, _)
\* a ^ n, or none when it leaves the range on the way
IntPow(a, n) == IF n = 0 THEN IntV(1)
                ELSE LET h == IntPow(a, n \div 2)
                     IN IF h = NoneV THEN h
                        ELSE LET q == Checked(IMul(h, h)) IN IF q = NoneV \/ n % 2 = 0 THEN q ELSE Checked(IMul(q, a))
RECURSIVE FactR(_, _, _)
FactR(n, i, acc) == IF ICmp(IntV(i), n) > 0 THEN OkV(acc)
                    ELSE LET p == IMul(acc, IntV(i))
                         IN IF InRange(p) THEN FactR(n, i + 1, p)
                            ELSE Bad("integer overflow with " \o IntText(acc) \o " and " \o NatText(i))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN IntV(1) ELSE LET h == Pow2(n \div 2) IN IF n % 2 = 0 THEN IMul(h, h) ELSE IMul(IMul(h, h), IntV(2))
Two64 == Pow2(64)
\* floor(a / 2^n)
FloorShift(a, n) == LET q == IQuo(a, Pow2(n))
                    IN IF Sign(a) < 0 /\ Sign(IRem(a, Pow2(n))) # 0 THEN ISub(q, IntV(1)) ELSE q
Wrap(a) == LET r == IRem(a, Two64)
               p == IF Sign(r) < 0 THEN IAdd(r, Two64) ELSE r
           IN IF ICmp(p, Pow2(63)) >= 0 THEN ISub(p, Two64) ELSE p
Shift(kind, a, b) ==
    IF b[1] = "big" \/ b[2] < 0 \/ b[2] > 63 THEN Bad("cannot shift " \o IntText(a) \o " by " \o IntText(b) \o " bits")
    ELSE CASE kind = "a" -> OkV(FloorShift(a, b[2]))
           [] kind = "l" -> OkV(Wrap(FloorShift(IF Sign(a) < 0 THEN IAdd(a, Two64) ELSE a, b[2])))
           [] OTHER -> OkV(Wrap(IMul(a, Pow2(b[2]))))

RECURSIVE DigitsOnly(_)
DigitsOnly(t) == t # "" /\ AllIn(t, Digits)
ParseInt(t) == LET neg == Len(t) > 0 /\ Ch(t, 1) = "-"
                   ds == IF Len(t) > 0 /\ Ch(t, 1) \in {"-", "+"} THEN SubSeq(t, 2, Len(t)) ELSE t
               IN IF ~DigitsOnly(ds) THEN NoneV
                  ELSE Checked(LET m == Trim(MOfDigits(ds)) IN IF m = <<>> THEN IntV(0) ELSE Norm(IF neg THEN -1 ELSE 1, m))
\* The integer part of a float.
TruncF(v) == IF v[1] = "flt" THEN IQuo(IntV(v[2]), IntV(1024))
             ELSE IF v[2] = "-0.0" THEN IntV(0)
             ELSE LET b == IF Len(v[2]) > 0 /\ Ch(v[2], 1) = "-" THEN SubSeq(v[2], 2, Len(v[2])) ELSE v[2]
                      i == SkipIn(b, 1, Digits)
                  IN IF i > 1 /\ i < 16 /\ i < Len(b) /\ Ch(b, i) = "." /\ AllIn(SubSeq(b, i + 1, Len(b)), Digits)
                     THEN LET m == Trim(MOfDigits(SubSeq(b, 1, i - 1))) IN IF m = <<>> THEN IntV(0) ELSE Norm(IF b = v[2] THEN 1 ELSE -1, m)
                     ELSE AnyV
FloorDiv(a, b) == a \div b
RoundF(kind, v) ==
    IF v[1] # "flt" THEN UnkFx
    ELSE LET k == v[2]
             f == (k \div 1024) * 1024
             c == -(((-k) \div 1024) * 1024)
             t == IF k < 0 THEN c ELSE f
             r == IF k >= 0 THEN ((k + 512) \div 1024) * 1024 ELSE -(((-k + 512) \div 1024) * 1024)
             q == CASE kind = "floor" -> f [] kind = "ceil" -> c [] kind = "trunc" -> t [] OTHER -> r
         IN IF q = 0 /\ k < 0 THEN <<"fx", "-0.0">> ELSE <<"flt", q>>

\* lo up to but not including hi
RangeV(lo, hi) ==
    LET n == ISub(hi, lo)
    IN IF Sign(n) <= 0 THEN OkV(ListV(<<>>))
       ELSE IF n[1] = "int" /\ n[2] <= 3000 THEN OkV(ListV([i \in 1..n[2] |-> IAdd(lo, IntV(i - 1))]))
       ELSE IF n[1] = "big" /\ MCmp(n[3], Pow2(58)[3]) > 0 THEN Bad("the range is too long")
       ELSE Out

RECURSIVE FlattenV(_), FlattenAll(_, _)
FlattenV(v) == IF IsList(v) \/ IsMap(v) THEN FlattenAll(Kids(v), 1) ELSE <<v>>
FlattenAll(vs, i) == IF i > Len(vs) THEN <<>> ELSE FlattenV(vs[i]) \o FlattenAll(vs, i + 1)

RECURSIVE Chunks(_, _, _)
Chunks(xs, n, i) == IF i > Len(xs) THEN <<>>
                    ELSE <<ListV(SubSeq(xs, i, Min2(i + n - 1, Len(xs))))>> \o Chunks(xs, n, i + n)

-----------------------------------------------------------------------------
(* The number of arguments: "" or what is reported. *)
LastOf(id) == LET ps == SplitOn(id, "@") IN ps[Len(ps)]
Known == {"string@caesar", "math@isodd", "math@iseven", "fs@tree", "fs@exists?", "fs@is-dir?", "fs@is-file?",
          "rand@int", "parse@expr", "math@rsh", "os@cd"}
NameOf(id) == CASE id = "string@caesar" -> "caesar-cipher"
                [] id = "math@isodd" -> "odd"
                [] id = "math@iseven" -> "even"
                [] id = "math@rsh" -> "a-rsh"
                [] id = "fs@tree" -> "joinx"
                [] id = "fs@exists?" -> "exists"
                [] id = "fs@is-dir?" -> "isdir"
                [] id = "fs@is-file?" -> "isfile"
                [] id = "parse@expr" -> "json"
                [] id \in {"@"} -> "@"
                [] OTHER -> LastOf(id)

Exactly == [n \in 0..4 |->
  CASE n = 0 -> {"log@get-level", "log@disable"}
    [] n = 1 -> {"unbind", "dict@flatten", "dict@items", "dict@keys", "dict@values", "dict@len", "dict@from-items",
                 "string@to-string", "string@get-width", "string@lines", "string@chars", "string@words", "string@paragraphs",
                 "math@fact", "math@abs", "math@floor", "math@ceil", "math@round", "math@trunc", "math@sinh", "math@cosh",
                 "math@tanh", "math@asinh", "math@acosh", "math@atanh", "math@sinpi", "math@cospi", "math@tanpi", "math@isodd",
                 "math@iseven", "math@ln", "math@log2", "math@log10", "math@sqrt", "math@cbrt", "math@sin", "math@cos",
                 "math@tan", "math@asin", "math@acos", "math@atan", "rand@choose", "rand@shuffle", "parse@expr", "parse@json",
                 "parse@toml", "fs@canon", "fs@mkdir", "fs@rmdir", "fs@rm", "fs@ls", "fs@exists?", "fs@is-dir?", "fs@is-file?",
                 "fs@read", "fs@glob", "os@cd", "sys@parse", "sys@quote", "sys@include", "sys@cd", "sys@import", "sys@unset",
                 "sys@defined?", "time@sleep", "log@set-level", "log@enabled?", "fmt@strip", "console@title", "console@clear",
                 "console@cursor@move-up", "console@cursor@move-down", "console@cursor@move-left", "console@cursor@move-right"}
    [] n = 2 -> {"dict@remove", "dict@has?", "dict@union", "dict@intersect", "dict@difference", "string@join",
                 "string@split-at", "string@starts-with?", "string@ends-with?", "string@contains?", "math@l-rsh", "math@a-rsh",
                 "math@rsh", "math@lsh", "math@pow", "math@log", "rand@int", "fs@head", "fs@tail", "fs@mv", "fs@cp", "fs@write",
                 "fs@append", "sys@set", "fmt@wrap", "fmt@href", "console@cursor@move-to"}
    [] n = 3 -> {"insert", "dict@insert", "string@replace", "console@write"}
    [] OTHER -> {"widget@create"}]
AtLeast == [n \in 1..2 |->
  IF n = 1 THEN {"+", "-", "*", "//", "%", "@", "str", "int", "keys", "vals", "len", "lines", "eval", "exec", "report",
                 "string@is-whitespace?", "string@is-alpha?", "string@is-alphanumeric?", "string@is-numeric?",
                 "string@to-lower", "string@to-upper", "string@to-title", "string@is-lower", "string@is-upper",
                 "string@is-title", "string@trim", "string@trim-start", "string@trim-end"}
  ELSE {"==", "!=", "<", "<=", ">", ">=", "widget@joinx", "widget@joiny"}]
Styles == [bold |-> "1", faint |-> "2", italics |-> "3", underline |-> "4", blink |-> "5", invert |-> "7", strike |-> "9",
           black |-> "90", red |-> "91", green |-> "92", yellow |-> "93", blue |-> "94", magenta |-> "95", cyan |-> "96", white |-> "97"]
Colors == [black |-> "30", red |-> "31", green |-> "32", yellow |-> "33", blue |-> "34", magenta |-> "35", cyan |-> "36", white |-> "37"]
StyleOf == [id \in {"fmt@" \o n : n \in DOMAIN Styles} |-> Styles[LastOf(id)]]
           @@ [id \in {"fmt@dark@" \o n : n \in DOMAIN Colors} |-> Colors[LastOf(id)]]

\* The list module has its own words.
ListArgs == {<<"tail", 1>>, <<"head", 1>>, <<"chunk", 2>>, <<"cons", 2>>, <<"append", 2>>, <<"len", 1>>, <<"rev", 1>>, <<"range", 2>>,
             <<"foldl", 3>>, <<"foldr", 3>>, <<"zip", 2>>, <<"unzip", 1>>, <<"take", 2>>, <<"drop", 2>>, <<"split-at", 2>>, <<"nth", 2>>}
NumWord == <<"one", "two", "three">>
OwnWords == [id \in {"list@" \o p[1] : p \in ListArgs} |->
               LET p == CHOOSE q \in ListArgs : "list@" \o q[1] = id
               IN <<p[2], p[1] \o " requires exactly " \o NumWord[p[2]] \o " argument" \o (IF p[2] = 1 THEN "" ELSE "s")>>]
            @@ [id \in {"fn@apply"} |-> <<2, "apply requires exactly two arguments">>]
            @@ [id \in {"fn@?"} |-> <<3, "conditional requires exactly three arguments">>]
            @@ [id \in {"to"} |-> <<2, "Must supply 2 arguments to range">>]
            @@ [id \in {"err@try"} |-> <<2, "try requires exactly two arguments: an expression to try to evaluate, and an error handler that takes an error as an argument">>]

ExactOf == [id \in UNION {Exactly[n] : n \in 0..4} |-> CHOOSE n \in 0..4 : id \in Exactly[n]]
Few(id) == "too few arguments to function " \o NameOf(id)
Many(id) == "too many arguments to function " \o NameOf(id)
ArgsError(id, n) ==
    CASE id \in DOMAIN ExactOf -> IF n = ExactOf[id] THEN "" ELSE IF n < ExactOf[id] THEN Few(id) ELSE Many(id)
      [] id \in DOMAIN OwnWords -> IF n = OwnWords[id][1] THEN "" ELSE OwnWords[id][2]
      [] id \in AtLeast[1] \/ id \in DOMAIN StyleOf -> IF n >= 1 THEN "" ELSE Few(id)
      [] id \in AtLeast[2] -> IF n >= 2 THEN "" ELSE Few(id)
      [] id = "string@caesar" -> IF n \in 1..2 THEN "" ELSE Few(id)
      [] id = "fs@tree" -> IF n \in 1..2 THEN "" ELSE Few(id)
      [] id \in {"fn@map", "fn@filter"} -> IF n \in 1..2 THEN "" ELSE IF n > 2 THEN Many(id) ELSE Few(id)
      [] id = "fn@reduce" -> IF n \in 1..3 THEN "" ELSE IF n > 3 THEN Many(id) ELSE Few(id)
      [] id = "fn@curry" -> IF n >= 2 THEN "" ELSE "curry requires at least two arguments"
      [] id = "|" -> IF n >= 2 THEN "" ELSE "pipe requires at least two arguments"
      [] id = "string@split2" -> IF n = 2 THEN "" ELSE "expected 2 arguments, got " \o NatText(n)
      [] OTHER -> ""

\* How many of n arguments are evaluated by the functions of evaluated arguments.
Used1 == {"str", "int", "keys", "vals", "len", "lines", "string@is-whitespace?", "string@is-alpha?", "string@is-alphanumeric?",
          "string@is-numeric?", "string@to-lower", "string@to-upper", "string@to-title", "string@is-lower", "string@is-upper",
          "string@is-title", "string@trim", "string@trim-start", "string@trim-end"} \cup DOMAIN StyleOf
EvCount(id, n) == IF id \in Used1 THEN 1
                  ELSE IF id \in {"==", "!=", "<", "<=", ">", ">="} THEN 2
                  ELSE n

JoinLines(v) == LinesOf(v[2])
JoinWidth(v) == LET l == LinesOf(TrimEnd(TrimStart(v[2]))) IN IF l = <<>> THEN 0 ELSE Len(l[1])
\* What is reported after the i-th argument v, before the next is evaluated; old: the ones before.
Early(id, i, v, old) ==
    CASE id \in {"math@l-rsh", "math@a-rsh", "math@rsh", "math@lsh"} ->
           IF IsInt(v) THEN "" ELSE "invalid " \o NameOf(id) \o " argument " \o Disp(v)
      [] id = "math@log" -> IF IsNum(v) THEN "" ELSE IF i = 1 THEN "invalid log base " \o Disp(v) ELSE "invalid log argument " \o Disp(v)
      [] id = "list@append" /\ i = 1 -> IF IsList(v) THEN "" ELSE "append requires a list as its first argument"
      [] id = "widget@create" ->
           IF i = 3 /\ (~IsInt(v) \/ ICmp(v, IntV(4)) <= 0) THEN "expected width argument to be integer greater than 4, but got " \o Disp(v)
           ELSE IF i = 4 /\ (~IsInt(v) \/ ICmp(v, IntV(3)) < 0) THEN "expected height argument to be an integer greater than 2, but got " \o Disp(v)
           ELSE ""
      [] id \in {"widget@joinx", "widget@joiny"} ->
           IF v[1] = "wid" \/ (i > 1 /\ old[1][1] = "wid") THEN ""
           ELSE IF v[1] # "str" THEN "expected string, but got " \o Disp(v)
           ELSE IF IsUnk(v[2]) \/ (i > 1 /\ IsUnk(old[1][2])) \/ i = 1 THEN ""
           ELSE IF id = "widget@joinx" /\ Len(JoinLines(v)) # Len(JoinLines(old[1]))
           THEN "Heights of horizontally added widgets must be equal, first widget height=" \o NatText(Len(JoinLines(old[1]))) \o ", "
                \o NatText(i - 1) \o "th widget height=" \o NatText(Len(JoinLines(v)))
           ELSE IF id = "widget@joiny" /\ JoinWidth(v) # JoinWidth(old[1])
           THEN "Widths of vertically added widgets must be equal, first widget height=" \o NatText(JoinWidth(old[1])) \o ", "
                \o NatText(i - 1) \o "th widget height=" \o NatText(JoinWidth(v))
           ELSE ""
      [] OTHER -> ""

-----------------------------------------------------------------------------
(* The values of the functions of evaluated arguments. *)
Pure == {"str", "int", "insert", "keys", "vals", "len", "lines", "to", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "!"}
Transcendental == {"math@sinh", "math@cosh", "math@tanh", "math@asinh", "math@acosh", "math@atanh", "math@sinpi", "math@cospi",
                   "math@tanpi", "math@ln", "math@log2", "math@log10", "math@sqrt", "math@cbrt", "math@sin", "math@cos",
                   "math@tan", "math@asin", "math@acos", "math@atan"}
Curly == {"math@sinh", "math@cosh", "math@tanh", "math@asinh", "math@acosh", "math@atanh", "math@sinpi", "math@cospi", "math@tanpi"}

NotStr(v) == Bad("expected string, got value " \o Disp(v))
OnText(v, r) == IF IsTxt(v) THEN OkV(r) ELSE NotStr(v)
BoolR(b) == OkV(BoolV(b))
Bool3(t) == IF t = "?" THEN Out ELSE BoolR(t = "T")
Order(id, c) == CASE c = "?" -> Out
                  [] c = "no" -> BoolR(FALSE)
                  [] id = "<" -> BoolR(c = "lt")
                  [] id = "<=" -> BoolR(c # "gt")
                  [] id = ">" -> BoolR(c = "gt")
                  [] OTHER -> BoolR(c # "lt")

TopFn(id, vs) ==
    LET v == vs[1] IN
    CASE id = "str" -> OkV(Str(Disp(v)))
      [] id = "int" -> (CASE IsInt(v) -> OkV(v)
                         [] IsFlt(v) -> LET t == TruncF(v) IN IF t = AnyV THEN Out ELSE OkV(t)
                         [] v[1] = "str" -> LET n == ParseInt(v[2]) IN IF n = NoneV THEN Bad("could not convert " \o Dbg(v) \o " to an integer") ELSE OkV(n)
                         [] OTHER -> Bad("could not convert " \o Dbg(v) \o " to an integer"))
      [] id = "insert" ->
           LET bad == Bad("index " \o Disp(vs[2]) \o " out of bounds for " \o Dbg(v))
           IN (CASE IsMap(v) /\ vs[2][1] = "str" -> OkV(MapV(PutKey(v[2], vs[2][2], vs[3])))
                [] IsList(v) /\ IsInt(vs[2]) -> IF vs[2][1] = "int" /\ 0 <= vs[2][2] /\ vs[2][2] <= Len(v[2])
                                                THEN OkV(ListV(InsertAt(v[2], vs[2][2] + 1, vs[3]))) ELSE bad
                [] v[1] = "str" /\ IsInt(vs[2]) -> LET n == Boundary(v[2], vs[2])
                                                   IN IF n < 0 THEN bad
                                                      ELSE OkV(Str(SubSeq(v[2], 1, n) \o Disp(vs[3]) \o SubSeq(v[2], n + 1, Len(v[2]))))
                [] OTHER -> Bad("cannot insert " \o Dbg(vs[3]) \o " into " \o Dbg(v) \o " with index " \o Dbg(vs[2])))
      [] id = "keys" -> IF IsMap(v) THEN OkV(StrsV([i \in 1..Len(v[2]) |-> v[2][i][1]])) ELSE Bad("cannot get the keys of " \o Disp(v))
      [] id = "vals" -> IF IsMap(v) THEN OkV(ListV(Kids(v))) ELSE Bad("cannot get the values of " \o Disp(v))
      [] id = "len" -> (CASE IsMap(v) \/ IsList(v) -> IV(Len(v[2]))
                         [] IsTxt(v) -> IV(Len(v[2]))
                         [] OTHER -> Bad("cannot get length of " \o Disp(v)))
      [] id = "lines" -> IF v[1] = "str" THEN OkV(StrsV(LinesOf(v[2]))) ELSE Bad("cannot get lines of non-string " \o Disp(v))
      [] id = "to" -> IF IsInt(v) /\ IsInt(vs[2]) THEN RangeV(v, vs[2]) ELSE Bad("Arguments to range must be integers")
      [] id = "==" -> Bool3(EqV(v, vs[2]))
      [] id = "!=" -> LET e == EqV(v, vs[2]) IN IF e = "?" THEN Out ELSE BoolR(e = "F")
      [] id \in {"<", "<=", ">", ">="} -> Order(id, CmpV(v, vs[2]))
      [] OTHER ->
           LET ts == {Truthy(vs[i]) : i \in 1..Len(vs)}
           IN CASE id = "&&" -> IF "F" \in ts THEN BoolR(FALSE) ELSE IF "?" \in ts THEN Out ELSE BoolR(TRUE)
                [] id = "||" -> IF "T" \in ts THEN BoolR(TRUE) ELSE IF "?" \in ts THEN Out ELSE BoolR(FALSE)
                [] OTHER -> IF "T" \in ts THEN BoolR(FALSE) ELSE IF "?" \in ts THEN Out ELSE BoolR(TRUE)

Requires(id, what) == Bad(LastOf(id) \o " requires " \o what)
ListFn(id, vs) ==
    LET v == vs[1]
        n == vs[1]
        Counted(Op(_)) == IF ~IsInt(n) THEN Requires(id, "an integer as its first argument")
                          ELSE IF ~IsList(vs[2]) THEN Requires(id, "a list as its second argument")
                          ELSE Op(Idx(n, Len(vs[2][2])))
        xs == vs[2][2]
    IN
    CASE id = "list@tail" -> IF IsList(v) THEN OkV(ListV(SubSeq(v[2], 2, Len(v[2])))) ELSE Requires(id, "a list as its argument")
      [] id = "list@head" -> IF IsList(v) THEN OkV(IF v[2] = <<>> THEN NoneV ELSE v[2][1]) ELSE Requires(id, "a list as its argument")
      [] id = "list@chunk" -> Counted(LAMBDA k : OkV(ListV(Chunks(xs, IF k = 0 THEN Len(xs) + 1 ELSE k, 1))))
      [] id = "list@cons" -> IF IsList(vs[2]) THEN OkV(ListV(<<v>> \o xs)) ELSE Requires(id, "a list as its second argument")
      [] id = "list@append" -> OkV(ListV(Append(v[2], vs[2])))
      [] id = "list@len" -> (CASE IsList(v) \/ IsMap(v) \/ v[1] = "bytes" -> IV(Len(v[2]))
                              [] v[1] = "str" -> IV(ByteLen(v[2]))
                              [] OTHER -> Requires(id, "a list or string as its argument"))
      [] id = "list@rev" -> (CASE IsList(v) \/ v[1] = "bytes" -> OkV(<<v[1], [i \in 1..Len(v[2]) |-> v[2][Len(v[2]) + 1 - i]]>>)
                              [] IsTxt(v) -> OkV(<<v[1], RevText(v[2])>>)
                              [] OTHER -> Requires(id, "a list or string as its argument"))
      [] id = "list@range" -> IF IsInt(v) /\ IsInt(vs[2]) THEN RangeV(v, IAdd(vs[2], IntV(1))) ELSE Requires(id, "two integers as its arguments")
      [] id = "list@zip" -> IF IsList(v) /\ IsList(vs[2]) THEN OkV(ListV([i \in 1..Min2(Len(v[2]), Len(xs)) |-> ListV(<<v[2][i], xs[i]>>)]))
                            ELSE Requires(id, "two lists as its arguments")
      [] id = "list@unzip" -> IF IsList(v) /\ \A i \in 1..Len(v[2]) : IsList(v[2][i]) /\ Len(v[2][i][2]) = 2
                              THEN OkV(ListV(<<ListV([i \in 1..Len(v[2]) |-> v[2][i][2][1]]), ListV([i \in 1..Len(v[2]) |-> v[2][i][2][2]])>>))
                              ELSE Requires(id, "a list of pairs as its argument")
      [] id = "list@take" -> Counted(LAMBDA k : OkV(ListV(SubSeq(xs, 1, Min2(k, Len(xs))))))
      [] id = "list@drop" -> Counted(LAMBDA k : OkV(ListV(SubSeq(xs, k + 1, Len(xs)))))
      [] id = "list@split-at" -> Counted(LAMBDA k : OkV(ListV(<<ListV(SubSeq(xs, 1, Min2(k, Len(xs)))), ListV(SubSeq(xs, k + 1, Len(xs)))>>)))
      [] OTHER -> \* list@nth
           IF ~IsInt(n) THEN Requires(id, "an integer as its first argument")
           ELSE IF ~IsList(vs[2]) THEN Requires(id, "a list as its second argument")
           ELSE LET i == IF n[1] = "big" THEN -1 ELSE IF n[2] < 0 THEN Len(xs) + n[2] ELSE n[2]
                IN IF 0 <= i /\ i < Len(xs) THEN OkV(xs[i + 1])
                   ELSE Bad("index " \o IntText(n) \o " out of bounds for " \o Dbg(vs[2]))

DictFn(id, vs) ==
    LET v == vs[1]
        key == IF Len(vs) > 1 THEN Disp(vs[2]) ELSE ""
        IfMap(r) == IF IsMap(v) THEN OkV(r) ELSE OkV(NoneV)
        Both == IsMap(v) /\ IsMap(vs[2])
    IN
    CASE id = "dict@flatten" -> OkV(ListV(FlattenV(v)))
      [] id = "dict@items" -> (CASE IsMap(v) -> OkV(ListV([i \in 1..Len(v[2]) |-> ListV(<<Str(v[2][i][1]), v[2][i][2]>>)]))
                                [] IsList(v) -> OkV(ListV([i \in 1..Len(v[2]) |-> ListV(<<IntV(i - 1), v[2][i]>>)]))
                                [] OTHER -> OkV(NoneV))
      [] id = "dict@keys" -> IfMap(StrsV([i \in 1..Len(v[2]) |-> v[2][i][1]]))
      [] id = "dict@values" -> IfMap(ListV(Kids(v)))
      [] id = "dict@insert" -> IF IsUnk(key) THEN Out ELSE IfMap(MapV(PutKey(v[2], key, vs[3])))
      [] id = "dict@remove" -> IF IsUnk(key) THEN Out ELSE IfMap(MapV(DropKey(v[2], key)))
      [] id = "dict@has?" -> IF IsUnk(key) THEN Out ELSE IfMap(BoolV(HasKey(v[2], key)))
      [] id = "dict@len" -> (CASE IsList(v) \/ IsMap(v) \/ v[1] = "bytes" -> IV(Len(v[2]))
                              [] v[1] = "str" -> IV(ByteLen(v[2]))
                              [] OTHER -> OkV(NoneV))
      [] id = "dict@from-items" ->
           IF ~IsList(v) THEN OkV(NoneV)
           ELSE LET ps == SelectSeq(v[2], LAMBDA x : IsList(x) /\ Len(x[2]) = 2)
                    ts == [i \in 1..Len(ps) |-> <<Disp(ps[i][2][1]), ps[i][2][2]>>]
                IN IF \E i \in 1..Len(ts) : IsUnk(ts[i][1]) THEN Out ELSE OkV(MapV(PutAll(<<>>, ts)))
      [] id = "dict@union" -> IF Both THEN OkV(MapV(PutAll(v[2], vs[2][2]))) ELSE OkV(NoneV)
      [] id = "dict@intersect" -> IF Both THEN OkV(MapV(SelectSeq(v[2], LAMBDA p : HasKey(vs[2][2], p[1])))) ELSE OkV(NoneV)
      [] OTHER -> IF Both THEN OkV(MapV(SelectSeq(v[2], LAMBDA p : ~HasKey(vs[2][2], p[1])))) ELSE OkV(NoneV)

StringFn(id, vs) ==
    LET v == vs[1]
        t == v[2]
        IfText(r) == IF IsTxt(v) THEN OkV(r) ELSE OkV(NoneV)
    IN
    CASE id = "string@to-string" -> OkV(Str(Disp(v)))
      [] id = "string@caesar" -> LET k == IF Len(vs) > 1 THEN vs[2] ELSE IntV(13)
                                 IN IF IsTxt(v) /\ IsInt(k) THEN OkV(Str(Concat([i \in 1..Len(t) |-> CaesarChar(Ch(t, i), Mod(k, 26))]))) ELSE OkV(NoneV)
      [] id = "string@get-width" -> IV(IF IsTxt(v) THEN MaxIn({Len(l) : l \in Range(SplitOn(t, NL))}) ELSE 0)
      [] id = "string@is-whitespace?" -> OnText(v, BoolV(AllIn(t, WsChars)))
      [] id = "string@is-alpha?" -> OnText(v, BoolV(AllIn(t, AlphaChars)))
      [] id = "string@is-alphanumeric?" -> OnText(v, BoolV(AllIn(t, AlphaChars \cup NumChars)))
      [] id = "string@is-numeric?" -> OnText(v, BoolV(AllIn(t, NumChars)))
      [] id = "string@split2" -> IF IsTxt(v) /\ IsTxt(vs[2]) THEN OkV(StrsV(SplitOn(vs[2][2], t)))
                                 ELSE Bad("expected string, got values " \o Disp(v) \o " and " \o Disp(vs[2]))
      [] id = "string@to-lower" -> OnText(v, Str(MapText1(t, 1, "low", "")))
      [] id = "string@to-upper" -> OnText(v, Str(MapText1(t, 1, "up", "")))
      [] id = "string@to-title" -> OnText(v, Str(MapText1(t, 1, "title", "")))
      [] id = "string@is-lower" -> OnText(v, BoolV(AllIn(t, LowChars)))
      [] id = "string@is-upper" -> OnText(v, BoolV(AllIn(t, UpChars)))
      [] id = "string@is-title" -> OnText(v, BoolV(MapText1(t, 1, "title", "") = t))
      [] id = "string@join" -> IF IsList(v) THEN OkV(Str(Join([i \in 1..Len(t) |-> Disp(t[i])], Disp(vs[2])))) ELSE OkV(NoneV)
      [] id = "string@lines" -> IfText(StrsV(LinesOf(t)))
      [] id = "string@chars" -> IF IsTxt(v) THEN OkV(StrsV(Chars(t))) ELSE Bad("cannot get characters of non-string " \o Disp(v))
      [] id = "string@words" -> IfText(StrsV(WordsR(t, 1, <<>>)))
      [] id = "string@paragraphs" -> IfText(StrsV(SplitOn(t, NL \o NL)))
      [] id = "string@split-at" ->
           IF ~IsTxt(v) \/ ~IsInt(vs[2]) THEN OkV(NoneV)
           ELSE LET n == Boundary(t, vs[2])
                IN IF n < 0 THEN Bad("cannot split " \o DebugStr(t) \o " at index " \o IntText(vs[2]))
                   ELSE OkV(StrsV(<<SubSeq(t, 1, n), SubSeq(t, n + 1, Len(t))>>))
      [] id = "string@trim" -> OnText(v, Str(TrimEnd(TrimStart(t))))
      [] id = "string@trim-start" -> OnText(v, Str(TrimStart(t)))
      [] id = "string@trim-end" -> OnText(v, Str(TrimEnd(t)))
      [] id = "string@replace" -> IF ~IsTxt(v) THEN OkV(NoneV)
                                  ELSE LET a == Disp(vs[2])
                                       IN IF IsUnk(a) \/ IsUnk(t) THEN Out ELSE OkV(Str(Join(SplitOn(t, a), Disp(vs[3]))))
      [] OTHER -> IF ~IsTxt(v) THEN OkV(NoneV)
                  ELSE LET a == Disp(vs[2])
                       IN IF IsUnk(a) THEN Out
                          ELSE BoolR(CASE id = "string@starts-with?" -> StartsWith(t, a)
                                       [] id = "string@ends-with?" -> EndsWith(t, a)
                                       [] OTHER -> Contains(t, a))

\* The functions of analysis are specified at sample points (curves.json, written by tools/mkcurves.py).
Curves == JsonDeserialize("curves.json")
CurveV(id, vs) ==
    LET Units(u) == IF u[1] = "flt" THEN IntText(IntV(u[2])) ELSE IF u[1] = "int" /\ u[2] \in -100000..100000 THEN IntText(IntV(u[2] * 1024)) ELSE "no"
        key == IF Len(vs) = 1 THEN id \o " " \o Units(vs[1]) ELSE id \o " " \o Units(vs[1]) \o " " \o Units(vs[2])
    IN IF key \in DOMAIN Curves THEN OkV(<<"about", Curves[key][1], Curves[key][2]>>) ELSE OkV(UnkFx)
MathFn(id, vs) ==
    LET v == vs[1]
        name == LastOf(id)
        invalid == Bad("invalid " \o name \o " argument " \o Dbg(v))
    IN
    CASE id \in {"math@l-rsh", "math@a-rsh", "math@rsh", "math@lsh"} ->
           Shift(IF name = "l-rsh" THEN "l" ELSE IF name = "lsh" THEN "s" ELSE "a", v, vs[2])
      [] id = "math@fact" -> (CASE IsInt(v) -> IF Sign(v) < 0 THEN Bad("cannot take the factorial of a negative number") ELSE FactR(v, 1, IntV(1))
                               [] v[1] = "flt" /\ v[2] < 0 -> Bad("cannot take the factorial of a negative number")
                               [] IsFlt(v) -> Out
                               [] OTHER -> invalid)
      [] id = "math@abs" -> (CASE IsInt(v) -> LET a == IF Sign(v) < 0 THEN INeg(v) ELSE v
                                              IN IF InRange(a) THEN OkV(a) ELSE Bad("integer overflow in abs " \o IntText(v))
                              [] v[1] = "flt" -> OkV(<<"flt", IF v[2] < 0 THEN -v[2] ELSE v[2]>>)
                              [] IsFlt(v) -> OkV(IF Ch(v[2], 1) = "-" THEN FNeg(v) ELSE v)
                              [] OTHER -> invalid)
      [] id \in {"math@floor", "math@ceil", "math@round", "math@trunc"} ->
           (CASE IsInt(v) -> OkV(v) [] IsFlt(v) -> OkV(RoundF(name, v)) [] OTHER -> invalid)
      [] id \in {"math@isodd", "math@iseven"} ->
           LET n == IF IsInt(v) THEN v ELSE IF IsFlt(v) THEN TruncF(v) ELSE NoneV
           IN IF n = NoneV THEN Bad("invalid " \o name \o " argument " \o Disp(v))
              ELSE IF n = AnyV THEN Out ELSE BoolR((Mod(n, 2) = 1) = (id = "math@isodd"))
      [] id = "math@pow" -> (CASE IsInt(v) /\ IsInt(vs[2]) ->
                                   LET bad == Bad("overflow when raising int " \o IntText(v) \o " to the power " \o IntText(vs[2]))
                                   IN IF Sign(vs[2]) < 0 \/ ICmp(vs[2], Pow2(32)) >= 0 THEN bad
                                      ELSE IF v \in {IntV(0), IntV(1), IntV(-1)}
                                      THEN OkV(IF v = IntV(-1) THEN IntV(IF Mod(vs[2], 2) = 0 THEN 1 ELSE -1)
                                               ELSE IF Sign(vs[2]) = 0 THEN IntV(1) ELSE v)
                                      ELSE LET p == IF vs[2][1] = "big" \/ vs[2][2] > 64 THEN NoneV ELSE IntPow(v, vs[2][2])
                                           IN IF p = NoneV THEN bad ELSE OkV(p)
                              [] IsNum(v) /\ IsNum(vs[2]) -> CurveV(id, vs)
                              [] OTHER -> Bad("cannot raise " \o Disp(v) \o " to the power " \o Disp(vs[2])))
      [] id = "math@log" -> CurveV(id, vs)
      [] OTHER -> IF IsNum(v) THEN CurveV(id, vs)
                  ELSE IF id \in Curly THEN invalid
                  ELSE IF id = "math@ln" THEN Bad("invalid natural log argument " \o Disp(v))
                  ELSE Bad("invalid " \o name \o " argument " \o Disp(v))

RandFn(id, vs) ==
    LET v == vs[1] IN
    CASE id = "rand@int" -> IF IsInt(v) /\ IsInt(vs[2]) /\ ICmp(v, vs[2]) < 0
                            THEN OkV(IF IAdd(v, IntV(1)) = vs[2] THEN v ELSE <<"between", v, vs[2]>>)
                            ELSE Bad("expected two integers in ascending order, but got " \o Disp(v) \o " and " \o Disp(vs[2]))
      [] id = "rand@choose" -> IF IsList(v) /\ v[2] # <<>>
                               THEN OkV(IF Len(v[2]) = 1 THEN v[2][1] ELSE <<"oneof", v[2]>>)
                               ELSE Bad("expected a list with items, but got " \o Disp(v))
      [] OTHER -> IF IsList(v) THEN OkV(IF Len(v[2]) < 2 THEN v ELSE <<"perm", v[2]>>)
                  ELSE Bad("expected a list, but got " \o Disp(v))

\* A title, a text, a width and a height which fit: the widget is left open,
\* apart from what Fits demands of it.
WidgetFn(id, vs) ==
    IF id = "widget@create"
    THEN LET title == Disp(vs[1])
             text == Disp(vs[2])
         IN IF ~IsInt(vs[3]) \/ ICmp(vs[3], IntV(4)) <= 0 THEN Bad("expected width argument to be integer greater than 4, but got " \o Disp(vs[3]))
            ELSE IF ~IsInt(vs[4]) \/ ICmp(vs[4], IntV(3)) < 0 THEN Bad("expected height argument to be an integer greater than 2, but got " \o Disp(vs[4]))
            ELSE IF IsUnk(title) \/ IsUnk(text) \/ vs[3][1] = "big" \/ vs[4][1] = "big" THEN Out
            ELSE IF Contains(title, NL) THEN Bad("title must be a single line")
            ELSE IF vs[3][2] - 2 < Len(title) THEN Bad("width is less than title length")
            ELSE IF vs[3][2] > 1000 \/ vs[4][2] > 1000 THEN OkV(Str(Unk))
            ELSE OkV(<<"wid", title, text, vs[3][2], vs[4][2]>>)
    ELSE IF \E i \in 1..Len(vs) : vs[i][1] = "wid" THEN Out
    ELSE IF id = "widget@joinx"
    THEN LET ls == [i \in 1..Len(vs) |-> LinesOf(vs[i][2])]
             h  == Len(ls[1])
             NoCr(t) == Join(SplitOn(t, CR), "")
         IN IF \E i \in 1..Len(ls) : Len(ls[i]) # h THEN Bad(Unk)
            ELSE OkV(Str(Concat([n \in 1..h |-> Concat([i \in 1..Len(ls) |-> NoCr(ls[i][n])]) \o NL])))
    ELSE LET ts == [i \in 1..Len(vs) |-> TrimEnd(TrimStart(vs[i][2]))]
             W(t) == LET l == LinesOf(t) IN IF l = <<>> THEN 0 ELSE Len(l[1])
         IN IF \E i \in 1..Len(ts) : W(ts[i]) # W(ts[1]) THEN Bad(Unk)
            ELSE OkV(Str(Join([i \in 1..Len(ts) |-> Join(SplitOn(ts[i], CR), "")], NL)))

FmtFn(id, vs) ==
    CASE id = "fmt@strip" -> OkV(Str(StripAnsi(Disp(vs[1]))))
      [] id = "fmt@href" -> OkV(Str(ESC \o "]8;;" \o Disp(vs[1]) \o ESC \o BS \o Disp(vs[2]) \o ESC \o "]8;;" \o ESC \o BS))
      [] id = "fmt@wrap" -> IF IsInt(vs[2]) /\ Sign(vs[2]) > 0 THEN OkV(IF IsUnk(Disp(vs[1])) \/ vs[2][1] = "big" \/ Len(Disp(vs[1])) > 2000 THEN Str(Unk) ELSE <<"wrap", Disp(vs[1]), vs[2][2]>>)
                            ELSE Bad("expected number of columns in wrap, but got " \o Disp(vs[2]))
      [] OTHER -> OkV(Str(ESC \o "[" \o StyleOf[id] \o "m" \o Disp(vs[1]) \o ESC \o "[m" \o ESC \o "[0m"))

Mod1(id) == IF Contains(id, "@") /\ id # "@" THEN SplitOn(id, "@")[1] ELSE ""
PureIds == Pure \cup {i \in DOMAIN ExactOf : Mod1(i) \in {"dict", "string", "math", "rand", "widget"}}
           \cup {i \in DOMAIN OwnWords : Mod1(i) = "list" /\ i \notin {"list@foldl", "list@foldr"}}
           \cup {i \in AtLeast[1] : Mod1(i) = "string"} \cup {"string@caesar", "string@split2", "widget@joinx", "widget@joiny"}
           \cup DOMAIN StyleOf \cup {"fmt@strip", "fmt@href", "fmt@wrap"}
\* Functions which see into their arguments only as far as they are settled.
Shallow == {"list@list", "list@cons", "list@append", "list@zip", "list@tail", "list@head", "list@take", "list@drop", "list@nth",
            "list@rev", "list@len", "list@split-at", "len", "dict@len", "str", "&&", "||", "!", "==", "!=", "list@chunk",
            "dict@items", "dict@values", "dict@keys", "vals", "keys", "rand@choose", "rand@shuffle", "dict@has?", "dict@insert",
            "dict@remove", "insert", "list@unzip"}
LibFn(id, vs) ==
    LET m == Mod1(id)
        opaque == \E i \in 1..Len(vs) : vs[i][1] \in Open
        unclear == \E i \in 1..Len(vs) : ~Clear(vs[i])
    IN IF opaque /\ id \notin {"==", "!=", "&&", "||", "!", "list@cons", "list@append"} THEN Out
       ELSE IF id = "list@append" /\ opaque /\ vs[1][1] \in Open THEN Out
       ELSE IF id = "list@cons" /\ opaque /\ vs[2][1] \in Open THEN Out
       ELSE IF unclear /\ id \notin Shallow /\ m # "fmt" THEN Out
       ELSE IF id \in Pure THEN TopFn(id, vs)
       ELSE CASE m = "list" -> ListFn(id, vs)
              [] m = "dict" -> DictFn(id, vs)
              [] m = "string" -> StringFn(id, vs)
              [] m = "math" -> MathFn(id, vs)
              [] m = "rand" -> RandFn(id, vs)
              [] m = "widget" -> WidgetFn(id, vs)
              [] OTHER -> FmtFn(id, vs)
=============================================================================
