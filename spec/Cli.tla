--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line.  A run has a sequence of arguments, a text on its     *)
(* standard input and a directory with FILE (a text, also found under some *)
(* other names), - (a file nobody should read), DIR (a directory) and      *)
(* nothing else.  Reading the arguments is a state machine  *)
(* that takes them one by one; when they are read, the run converts one    *)
(* text and prints the result, or fails without printing anything.         *)
(***************************************************************************)
EXTENDS Props, CliFiles

(* --- reading arguments --- *)
Fresh == [t |-> "avro", r |-> "cast", c |-> FALSE, n |-> FALSE, u |-> FALSE, w |-> FALSE,
          file |-> <<>>, seen |-> {}, want |-> "", rest |-> FALSE, verdict |-> "open"]
Usage(s) == [s EXCEPT !.verdict = "usage"]
Info(s) == [s EXCEPT !.verdict = "info"]
TargetOf == [avro |-> "avro", bigquery |-> "bq"]
Seen(s, o) == [s EXCEPT !.seen = @ \cup {o}, !.want = ""]
Flag(s, o) == IF o \in s.seen THEN Usage(s)
              ELSE CASE o = "c" -> [Seen(s, o) EXCEPT !.c = TRUE] [] o = "n" -> [Seen(s, o) EXCEPT !.n = TRUE]
                     [] o = "u" -> [Seen(s, o) EXCEPT !.u = TRUE] [] o = "w" -> [Seen(s, o) EXCEPT !.w = TRUE]
SetValue(s, o, x) ==
  IF o \in s.seen THEN Usage(s)
  ELSE IF o = "t" THEN IF x \in DOMAIN TargetOf THEN [Seen(s, o) EXCEPT !.t = TargetOf[x]] ELSE Usage(s)
  ELSE IF x \in {"cast", "drop", "panic"} THEN [Seen(s, o) EXCEPT !.r = x] ELSE Usage(s)
Positional(s, a) == IF s.file # <<>> THEN Usage(s) ELSE [s EXCEPT !.file = <<a>>]
Want(s, o) == IF o \in s.seen THEN Usage(s) ELSE [s EXCEPT !.want = o]

\* -abc: flags, up to one that takes the rest as its value
RECURSIVE Cluster(_, _, _)
Cluster(s, a, i) ==
  IF s.verdict # "open" \/ i > Len(a) THEN s
  ELSE LET o == At(a, i) IN
       IF o \in {"c", "n", "w"} THEN Cluster(Flag(s, o), a, i + 1)
       ELSE IF o \in {"h", "V"} THEN Info(s)
       ELSE IF o \in {"t", "r"}
       THEN IF i = Len(a) THEN Want(s, o)
            ELSE SetValue(s, o, SubSeq(a, IF At(a, i + 1) = "=" THEN i + 2 ELSE i + 1, Len(a)))
       ELSE Usage(s)
LongFlag == ("--normalize-case" :> "c") @@ ("--force-nullable" :> "n") @@ ("--tuple-struct" :> "u")
            @@ ("--allow-maps-without-value" :> "w")
LongValue == ("--type" :> "t") @@ ("--resolve" :> "r")
EqAt(a) == CHOOSE i \in 1..(Len(a) + 1) : (i = Len(a) + 1 \/ At(a, i) = "=") /\ \A j \in 1..(i - 1) : At(a, j) # "="
LongArg(s, a) ==
  LET e == EqAt(a)
      name == SubSeq(a, 1, e - 1)
      given == e <= Len(a)
  IN IF name \in DOMAIN LongFlag THEN IF given THEN Usage(s) ELSE Flag(s, LongFlag[name])
     ELSE IF name \in {"--help", "--version"} THEN IF given THEN Usage(s) ELSE Info(s)
     ELSE IF name \in DOMAIN LongValue
     THEN IF given THEN SetValue(s, LongValue[name], SubSeq(a, e + 1, Len(a))) ELSE Want(s, LongValue[name])
     ELSE Usage(s)
Take(s, a) ==
  IF s.verdict # "open" THEN s
  ELSE IF s.want # "" THEN IF StartsWith(a, "-") THEN Usage(s) ELSE SetValue(s, s.want, a)
  ELSE IF s.rest THEN Positional(s, a)
  ELSE IF a = "--" THEN [s EXCEPT !.rest = TRUE]
  ELSE IF StartsWith(a, "--") THEN LongArg(s, a)
  ELSE IF StartsWith(a, "-") /\ a # "-" THEN Cluster(s, a, 2)
  ELSE Positional(s, a)
RECURSIVE TakeAll(_, _, _)
TakeAll(s, args, i) == IF i > Len(args) THEN s ELSE TakeAll(Take(s, args[i]), args, i + 1)
Done(s) == IF s.verdict # "open" THEN s ELSE IF s.want # "" THEN Usage(s) ELSE [s EXCEPT !.verdict = "run"]
Read(args) == Done(TakeAll(Fresh, args, 1))

(* --- the run --- *)
\* texts: [k |-> "json", v |-> value] or [k |-> "bad"]
Source(s, stdin, file) ==
  IF s.file = <<>> \/ s.file = <<"-">> THEN stdin
  ELSE IF s.file[1] \in DashNames THEN [k |-> "json", v |-> JObj("type" :> JStr("boolean"))]
  ELSE IF s.file[1] \in FileNames THEN file ELSE [k |-> "bad"]
CliOpts(s) == [r |-> s.r, nc |-> s.c, fn |-> s.n, ts |-> s.u, mw |-> s.w, rx |-> <<>>]
\* [done |-> "ok", v], or [done |-> "usage", "info" or "fail"]
RunCli(args, stdin, file) ==
  LET s == Read(args) IN
  IF s.verdict # "run" THEN [done |-> s.verdict]
  ELSE LET src == Source(s, stdin, file) IN
       IF src.k # "json" THEN [done |-> "fail"]
       ELSE LET out == Run(src.v, s.t, CliOpts(s)) IN
            IF out.r = "ok" THEN [done |-> "ok", t |-> s.t, out |-> out] ELSE [done |-> "fail"]

(* --- the printed form: two spaces a level, keys in order --- *)
RECURSIVE Spaces(_)
Spaces(d) == IF d = 0 THEN "" ELSE "  " \o Spaces(d - 1)
RECURSIVE Quote(_, _)
Quote(s, i) == IF i > Len(s) THEN ""
               ELSE (IF At(s, i) = "\"" THEN "\\\"" ELSE IF At(s, i) = "\\" THEN "\\\\"
                     ELSE IF At(s, i) = "\n" THEN "\\n" ELSE IF At(s, i) = "\t" THEN "\\t"
                     ELSE IF At(s, i) = "\r" THEN "\\r" ELSE IF At(s, i) = "\f" THEN "\\f" ELSE At(s, i)) \o Quote(s, i + 1)
Quoted(s) == "\"" \o Quote(s, 1) \o "\""
RECURSIVE Lines(_, _)
Lines(ss, i) == IF i > Len(ss) THEN "" ELSE (IF i = 1 THEN "" ELSE ",\n") \o ss[i] \o Lines(ss, i + 1)
RECURSIVE Pretty(_, _)
Pretty(v, d) ==
  CASE v.j = "n" -> "null"
    [] v.j = "b" -> IF v.b THEN "true" ELSE "false"
    [] v.j = "i" -> NatText(v.i)
    [] v.j = "f" -> v.f
    [] v.j = "s" -> Quoted(v.s)
    [] v.j = "a" -> IF v.a = <<>> THEN "[]"
                    ELSE "[\n" \o Lines([i \in DOMAIN v.a |-> Spaces(d + 1) \o Pretty(v.a[i], d + 1)], 1) \o "\n" \o Spaces(d) \o "]"
    [] v.j = "o" -> IF DOMAIN v.o = {} THEN "{}"
                    ELSE LET ks == SortTexts(DOMAIN v.o)
                         IN "{\n" \o Lines([i \in DOMAIN ks |-> Spaces(d + 1) \o Quoted(ks[i]) \o ": " \o Pretty(v.o[ks[i]], d + 1)], 1)
                            \o "\n" \o Spaces(d) \o "}"

(* --- a recorded run: [args, stdin, file, code, text, value] --- *)
\* value: <<the JSON value printed>>, or <<>> when what is printed is not JSON
CliFails(o) ==
  LET e == RunCli(o.args, o.stdin, o.file) IN
  CASE e.done = "info" -> (IF o.code = 0 THEN {} ELSE {"help or version fails"})
                          \cup (IF o.text = "" \/ o.value # <<>> THEN {"neither help nor version"} ELSE {})
    [] e.done \in {"usage", "fail"} ->
         (IF o.code = 0 THEN {IF e.done = "usage" THEN "bad arguments accepted" ELSE "failure not reported"} ELSE {})
         \cup (IF o.text # "" THEN {"output despite failure"} ELSE {})
    [] OTHER ->
         IF o.code # 0 THEN {"run fails"}
         ELSE IF o.value = <<>> THEN {"output is not JSON"}
         ELSE (IF Diff(e.t, e.out, [r |-> "ok", v |-> o.value[1]]) # {} THEN {"not what the options ask for"} ELSE {})
              \cup (IF o.text # Pretty(o.value[1], 0) \o "\n" THEN {"not printed as documented"} ELSE {})
=============================================================================
