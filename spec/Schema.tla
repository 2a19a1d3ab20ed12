------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The supported dialect of JSON Schema, on tagged JSON values.            *)
(*                                                                         *)
(* Accepted(v)   the document has the shape of a schema: every keyword the *)
(*               transpiler knows has a value of the right type, in every  *)
(*               subschema, whether or not the subschema is used.          *)
(* TypeOf(v)     the declared type: one of the simple types or a list.     *)
(***************************************************************************)
EXTENDS Json2

SimpleTypes == {"null", "boolean", "number", "integer", "string", "object",
                "array", "date-time", "bytes"}

\* --- shape -----------------------------------------------------------------
RECURSIVE Accepted(_)
Opt(v, k, P(_)) == Given(v, k) => P(v.o[k])
\* Numbers beyond 2000000000 are given by their digits; as a count, each is as good as any other.
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsCount(x) == \/ x.j = "i" /\ x.i >= 0
              \/ x.j = "f" /\ Len(x.f) <= 20 /\ \A i \in 1..Len(x.f) : SubSeq(x.f, i, i) \in Digit
CountOf(x) == IF x.j = "i" THEN x.i ELSE 2000000000
IsTexts(x) == x.j = "a" /\ \A i \in DOMAIN x.a : IsStr(x.a[i])
IsSchemas(x) == x.j = "a" /\ \A i \in DOMAIN x.a : Accepted(x.a[i])
IsSchemaMap(x) == x.j = "o" /\ \A k \in DOMAIN x.o : Accepted(x.o[k])
IsBoolOrSchema(x) == x.j = "b" \/ Accepted(x)
Accepted(v) ==
  /\ v.j = "o"
  /\ Opt(v, "format", IsStr)
  /\ Opt(v, "description", IsStr)
  /\ Opt(v, "title", IsStr)
  /\ Opt(v, "properties", IsSchemaMap)
  /\ Opt(v, "patternProperties", IsSchemaMap)
  /\ Opt(v, "additionalProperties", IsBoolOrSchema)
  /\ Opt(v, "required", IsTexts)
  /\ Opt(v, "items", LAMBDA x : Accepted(x) \/ IsSchemas(x))
  /\ Opt(v, "additionalItems", IsBoolOrSchema)
  /\ Opt(v, "minItems", IsCount)
  /\ Opt(v, "maxItems", IsCount)
  /\ Opt(v, "oneOf", IsSchemas)
  /\ Opt(v, "allOf", IsSchemas)

\* --- type ------------------------------------------------------------------
FormatOf(v) == IF Given(v, "format") THEN v.o["format"].s ELSE ""
BadType == [ok |-> FALSE, list |-> FALSE, atoms |-> <<>>]
OneType(a) == [ok |-> a \in SimpleTypes, list |-> FALSE, atoms |-> <<a>>]
TypeOf(v) ==
  LET t == IF Has(v, "type") THEN v.o["type"] ELSE JNull IN
  CASE t.j = "s" -> IF t.s = "string" /\ FormatOf(v) \in {"date-time", "bytes"}
                    THEN OneType(FormatOf(v)) ELSE OneType(t.s)
    [] t.j = "a" -> IF \A i \in DOMAIN t.a : t.a[i].j = "s" /\ t.a[i].s \in SimpleTypes
                    THEN [ok |-> TRUE, list |-> TRUE, atoms |-> [i \in DOMAIN t.a |-> t.a[i].s]]
                    ELSE BadType
    [] OTHER -> OneType("object")

\* --- keyword access ----------------------------------------------------------
TextOpt(v, k) == IF Given(v, k) THEN <<v.o[k].s>> ELSE <<>>
Required(v) == IF Given(v, "required")
               THEN {v.o["required"].a[i].s : i \in DOMAIN v.o["required"].a} ELSE {}
\* What an object schema without properties is made of.
IsMapSchema(v) == \/ Given(v, "additionalProperties") /\ IsObj(v.o["additionalProperties"])
                  \/ Given(v, "patternProperties") /\ DOMAIN v.o["patternProperties"].o # {}
\* The value schemas of a map, in an order fixed by the caller for the patterns.
AddlSchema(v) == IF Given(v, "additionalProperties") /\ IsObj(v.o["additionalProperties"])
                 THEN <<v.o["additionalProperties"]>> ELSE <<>>
Patterns(v) == IF Given(v, "patternProperties") THEN v.o["patternProperties"].o ELSE EmptyFn

MetaRegex(v) ==
  IF Has(v, "mozPipelineMetadata") /\ IsObj(v.o["mozPipelineMetadata"])
     /\ Has(v.o["mozPipelineMetadata"], "json_object_path_regex")
     /\ IsStr(v.o["mozPipelineMetadata"].o["json_object_path_regex"])
  THEN <<v.o["mozPipelineMetadata"].o["json_object_path_regex"].s>> ELSE <<>>
=============================================================================
