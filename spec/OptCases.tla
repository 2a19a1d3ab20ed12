------------------------------ MODULE OptCases ------------------------------
(* Options given as data: every entry alone and every pair of entries, all *)
(* combinations of options in two spellings, and lists of values.          *)
EXTENDS Universe, Options, SequencesExt, Json, IOUtils

En(name, v) == [name |-> name, tagged |-> v]
Values == {JNull, JBool(TRUE), JBool(FALSE), JStr("Cast"), JStr("Drop"), JStr("Panic"), JStr("drop"), JStr("cast"), JStr("panic"), JStr("Error"), JStr("Fail"), JStr("DROP"), JStr(""), JStr("p"), JStr("true"), JInt(0), JInt(1),
           JFloat("1.5"), JArr(<<>>), JArr(<<JStr("Drop")>>), JObj(EmptyFn), JObj("Drop" :> JNull), JObj("Drop" :> JBool(TRUE)), JObj("drop" :> JNull),
           JObj(("Drop" :> JNull) @@ ("Cast" :> JNull))}
Strange == {"", "resolveMethod", "resolve-method", "resolve", "Resolve_method", "normalize_case ", "normalizeCase", "force_null", "tuple", "is_root", "json_object_path", "x"}
All1 == {En(k, v) : k \in Range(OptionNames) \cup Strange, v \in Values}
Good1 == {En(k, v) : k \in Range(OptionNames) \ {"resolve_method", "json_object_path_regex"}, v \in {JBool(TRUE), JBool(FALSE)}}
         \cup {En("resolve_method", JStr(m)) : m \in {"Cast", "Drop", "Panic"}} \cup {En("json_object_path_regex", v) : v \in {JNull, JStr("p")}} \cup {En("x", JInt(1))}
Grids == {<<En("resolve_method", JStr(m)), En("normalize_case", JBool(c)), En("force_nullable", JBool(n)), En("tuple_struct", JBool(u)),
            En("allow_maps_without_value", JBool(w)), En("json_object_path_regex", x)>> :
            m \in {"Cast", "Drop", "Panic"}, c, n, u, w \in BOOLEAN, x \in {JNull, JStr("m"), JStr("fooBar|e")}}
Probe == ObjOf(("fooBar" :> Int) @@ ("t" :> TupOf(<<Int, Str>>, <<1>>, <<2>>, <<>>)) @@ ("m" :> MapOf(Empty)) @@ ("e" :> Empty) @@ ("b-c" :> ArrOf(Str)), <<"fooBar">>)
OneOpt(form, es, v) == {[form |-> form, es |-> es, tagged |-> v, t |-> t] : t \in {"avro", "bq"}}
OptU(deep) ==
  LET lists == {<<a, b>> : a, b \in Values} \cup {<<a>> : a \in Values} \cup {<<>>}
               \cup {<<JStr("Drop"), a, b>> : a, b \in Values} \cup {[i \in 1..n |-> IF i = 1 THEN JStr("Panic") ELSE IF i = 6 THEN JStr("e") ELSE JBool(i % 2 = 0)] : n \in 3..8}
  IN UNION {OneOpt("map", es, Probe) : es \in {<<>>} \cup {<<a>> : a \in All1} \cup {<<a, b>> : a, b \in Good1} \cup Grids
                \cup {Reverse(g) : g \in Grids} \cup (IF deep THEN {<<a, b>> : a \in All1, b \in Good1} \cup {<<a, b, c>> : a, b, c \in Good1} ELSE {<<b, a>> : a \in All1, b \in {En("resolve_method", JStr("Drop"))}})}
     \cup UNION {OneOpt("list", [i \in DOMAIN vs |-> En("", vs[i])], Probe) : vs \in lists \cup {[i \in DOMAIN g |-> g[i].tagged] : g \in Grids}}
     \cup UNION {OneOpt("other", <<En("", v)>>, Probe) : v \in {x \in Values : x.j \notin {"a", "o"}}}
Cases == LET s == SetToSeq(OptU(IOEnv.DEEP = "1")) IN [i \in DOMAIN s |-> ("id" :> "u" \o NatText(i)) @@ s[i]]
ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
VARIABLE done
Init == done = FALSE
Next == UNCHANGED done
=============================================================================
