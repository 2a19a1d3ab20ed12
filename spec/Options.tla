------------------------------- MODULE Options ------------------------------
(***************************************************************************)
(* Options given as data (a Context read by serde).  The entries of the    *)
(* data are taken one by one, like the arguments of the command: each sets *)
(* an option, is ignored, or makes the data unusable.  form is "map" for   *)
(* named entries, "list" for values in the order of the options, or        *)
(* "other" for data that is neither.                                       *)
(***************************************************************************)
EXTENDS Props

OptionNames == <<"resolve_method", "normalize_case", "force_nullable", "tuple_struct",
                 "allow_maps_without_value", "json_object_path_regex">>
Defaults == [r |-> "cast", c |-> FALSE, n |-> FALSE, u |-> FALSE, w |-> FALSE, x |-> <<>>]
Start == [v |-> Defaults, seen |-> {}, ok |-> TRUE]
Spoilt(s) == [s EXCEPT !.ok = FALSE]
MethodOf == ("Cast" :> "cast") @@ ("Drop" :> "drop") @@ ("Panic" :> "panic")
FlagOf == ("normalize_case" :> "c") @@ ("force_nullable" :> "n") @@ ("tuple_struct" :> "u") @@ ("allow_maps_without_value" :> "w")
\* a method is its name, or a map from its name to nothing
MethodText(x) ==
  CASE x.j = "s" -> x.s
    [] x.j = "o" -> IF Cardinality(DOMAIN x.o) = 1
                    THEN LET k == CHOOSE y \in DOMAIN x.o : TRUE IN IF x.o[k].j = "n" THEN k ELSE "" ELSE ""
    [] OTHER -> ""
SetOption(s, name, x) ==
  LET t == [s EXCEPT !.seen = @ \cup {name}] IN
  CASE name = "resolve_method" -> IF MethodText(x) \in DOMAIN MethodOf THEN [t EXCEPT !.v.r = MethodOf[MethodText(x)]] ELSE Spoilt(s)
    [] name = "json_object_path_regex" -> IF x.j = "n" THEN [t EXCEPT !.v.x = <<>>]
                                          ELSE IF x.j = "s" THEN [t EXCEPT !.v.x = <<x.s>>] ELSE Spoilt(s)
    [] OTHER -> IF x.j # "b" THEN Spoilt(s)
                ELSE CASE FlagOf[name] = "c" -> [t EXCEPT !.v.c = x.b] [] FlagOf[name] = "n" -> [t EXCEPT !.v.n = x.b]
                       [] FlagOf[name] = "u" -> [t EXCEPT !.v.u = x.b] [] FlagOf[name] = "w" -> [t EXCEPT !.v.w = x.b]
TakeEntry(s, e) ==
  IF ~s.ok \/ e.name \notin Range(OptionNames) THEN s
  ELSE IF e.name \in s.seen THEN Spoilt(s)
  ELSE SetOption(s, e.name, e.v)
RECURSIVE TakeEntries(_, _, _)
TakeEntries(s, es, i) == IF i > Len(es) THEN s ELSE TakeEntries(TakeEntry(s, es[i]), es, i + 1)
ReadOptions(form, es) ==
  CASE form = "map" -> TakeEntries(Start, es, 1)
    [] form = "list" -> IF Len(es) > Len(OptionNames) THEN Spoilt(Start)
                        ELSE TakeEntries(Start, [i \in DOMAIN es |-> [name |-> OptionNames[i], v |-> es[i].v]], 1)
    [] OTHER -> Spoilt(Start)

(* a recorded reading: [form, es, text, value, base, schema, t, out]; text and value are <<options>> or <<>>, as read
   from a text and from a value (the latter keeps the last of two entries of one name); base is the default *)
OptFails(o) ==
  LET s == ReadOptions(o.form, o.es)
      want == IF s.ok THEN <<s.v>> ELSE <<>>
      twice == \E i, k \in DOMAIN o.es : i < k /\ o.es[i].name = o.es[k].name
  IN (IF o.text = want THEN {} ELSE {IF want = <<>> THEN "unusable options accepted" ELSE IF o.text = <<>> THEN "options refused" ELSE "options misread"})
     \cup (IF (twice /\ o.form = "map") \/ o.value = want THEN {} ELSE {"options misread from a value"})
     \cup (IF o.base = Defaults THEN {} ELSE {"defaults differ"})
     \cup (IF o.text = <<>> \/ ~s.ok THEN {}
           ELSE IF Diff(o.t, Run(o.schema, o.t, [r |-> s.v.r, nc |-> s.v.c, fn |-> s.v.n, ts |-> s.v.u, mw |-> s.v.w, rx |-> s.v.x]), o.out) = {}
           THEN {} ELSE {"not what the options ask for"})
=============================================================================
