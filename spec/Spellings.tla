------------------------------ MODULE Spellings -----------------------------
(***************************************************************************)
(* Ways of writing one schema.  Respelt(v) is a set of schemas that say    *)
(* the same as v in other keywords, changed at the top of v; what is       *)
(* written differently inside is reached by putting v in a context.        *)
(***************************************************************************)
EXTENDS Schema, Text

Worn == {"description", "title", "mozPipelineMetadata"}
Less1(v, ks) == JObj([k \in DOMAIN v.o \ ks |-> v.o[k]])
Put(v, k, x) == JObj((k :> x) @@ v.o)
Wear(v, w) == JObj([k \in DOMAIN v.o \cap Worn |-> v.o[k]] @@ w.o)
TypeText(v) == IF Has(v, "type") /\ v.o["type"].j = "s" THEN v.o["type"].s ELSE ""
NoText(v) == Has(v, "type") => v.o["type"].j \notin {"s", "a"}
\* v is decided by its keywords for objects
AsObject(v) == TypeText(v) = "object" \/ NoText(v)
AltsOf(xs) == JObj("oneOf" :> JArr(xs))
\* alternatives are read at all
HasAlts(v) == AsObject(v) /\ Given(v, "oneOf") /\ ~Given(v, "properties") /\ ~IsMapSchema(v)
IsPlainAlts(v) == HasAlts(v) /\ DOMAIN v.o = {"oneOf"}
RECURSIVE FlatAlts(_, _)
FlatAlts(xs, i) == IF i > Len(xs) THEN <<>>
                   ELSE (IF IsPlainAlts(xs[i]) THEN FlatAlts(xs[i].o["oneOf"].a, 1) ELSE <<xs[i]>>) \o FlatAlts(xs, i + 1)
RECURSIVE SomeOrder(_)
SomeOrder(ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : TRUE IN <<k>> \o SomeOrder(ks \ {k})
NoWords(x) == ~Given(x, "description") /\ ~Given(x, "title")

TypeSpellings(v) ==
  (IF TypeText(v) # "" /\ ~(TypeText(v) = "string" /\ FormatOf(v) \in {"date-time", "bytes"})
   THEN {Put(v, "type", JArr(<<v.o["type"]>>)), Put(v, "type", JArr(<<v.o["type"], v.o["type"], v.o["type"]>>))
         } \ (IF TypeText(v) \in {"array", "object"} THEN {Put(v, "type", JArr(<<v.o["type"], v.o["type"], v.o["type"]>>))} ELSE {}) ELSE {})
  \cup (IF TypeText(v) = "string" /\ FormatOf(v) \in {"date-time", "bytes"}
        THEN {Put(v, "type", JStr(FormatOf(v))), Less1(Put(v, "type", JStr(FormatOf(v))), {"format"})} ELSE {})
  \cup (IF Has(v, "type") /\ v.o["type"].j = "a" /\ v.o["type"].a # <<>>
        THEN {Wear(v, AltsOf([i \in DOMAIN v.o["type"].a |-> Put(Less1(v, Worn \cup {"format"}), "type", v.o["type"].a[i])]))} ELSE {})
  \cup (IF NoText(v) THEN {Put(v, "type", JStr("object")), Put(v, "type", JNull), Less1(v, {"type"})} ELSE {})
  \cup (IF TypeText(v) = "object" THEN {Less1(v, {"type"})} ELSE {})
AltSpellings(v) ==
  {Wear(v, AltsOf(<<Less1(v, Worn)>>)), Wear(v, AltsOf(<<AltsOf(<<Less1(v, Worn)>>)>>))}
  \cup (IF ~HasAlts(v) \/ v.o["oneOf"].a = <<>> THEN {}
        ELSE LET xs == v.o["oneOf"].a
             IN {Put(v, "oneOf", JArr(ys)) : ys \in
                   {FlatAlts(xs, 1), <<AltsOf(xs)>>, [i \in DOMAIN xs |-> AltsOf(<<xs[i]>>)]}
                   \cup {SubSeq(xs, 1, i) \o <<AltsOf(SubSeq(xs, i + 1, Len(xs)))>> : i \in 0..(Len(xs) - 1)}})
MapSpellings(v) ==
  IF ~AsObject(v) \/ Given(v, "properties") \/ ~IsMapSchema(v) THEN {}
  ELSE LET ps == Patterns(v)
           order == SomeOrder(DOMAIN ps)
           all == AddlSchema(v) \o [i \in DOMAIN order |-> ps[order[i]]]
           bare == Less1(v, {"additionalProperties", "patternProperties"})
           Over(x) == Put(bare, "additionalProperties", x)
       IN \* the schema of the values has no description of its own if it is made of several
          (IF AddlSchema(v) # <<>> /\ ~Given(v, "patternProperties")
           THEN (IF NoWords(all[1]) THEN {Put(bare, "patternProperties", JObj(".*" :> all[1])), Over(AltsOf(all)),
                                         Put(v, "patternProperties", JObj(EmptyFn))} ELSE {})
           ELSE {Over(AltsOf(all)), Put(bare, "patternProperties", JObj([k \in {"p" \o NatText(i) : i \in DOMAIN all} |-> all[CHOOSE i \in DOMAIN all : "p" \o NatText(i) = k]]))})
TupleSpellings(v) ==
  IF TypeText(v) # "array" \/ ~Given(v, "items") \/ v.o["items"].j # "a" THEN {}
  ELSE LET xs == v.o["items"].a
           n == Len(xs)
           min == IF Given(v, "minItems") THEN CountOf(v.o["minItems"]) ELSE n
           Closed(w) == Put(Less1(w, {"maxItems"}), "additionalItems", JBool(FALSE))
           closed == Given(v, "additionalItems") /\ v.o["additionalItems"].j = "b" /\ ~v.o["additionalItems"].b
           exact == ~Given(v, "additionalItems") /\ Given(v, "maxItems") /\ CountOf(v.o["maxItems"]) = n
           more == Given(v, "additionalItems") /\ IsObj(v.o["additionalItems"]) /\ Given(v, "maxItems")
           extra == IF more THEN CountOf(v.o["maxItems"]) - n ELSE 0
       IN (IF closed THEN {Put(Less1(v, {"additionalItems"}), "maxItems", JInt(n)), Less1(v, {"maxItems"})} ELSE {})
          \cup (IF exact THEN {Closed(v)} ELSE {})
          \cup (IF min >= n THEN {Less1(v, {"minItems"}), Put(v, "minItems", JInt(n)), Put(v, "minItems", JInt(n + 1))} ELSE {})
          \* further items are items that may be missing
          \cup (IF more /\ extra >= 0 /\ extra <= 8
                THEN {Put(Closed(Put(v, "items", JArr(xs \o [i \in 1..extra |-> v.o["additionalItems"]]))), "minItems", JInt(IF min < n THEN min ELSE n))} ELSE {})
OtherSpellings(v) ==
  (IF ~Given(v, "required") THEN {Put(v, "required", JArr(<<>>)), Put(v, "required", JNull)} ELSE {})
  \cup (IF Given(v, "required") /\ v.o["required"].a = <<>> THEN {Less1(v, {"required"})} ELSE {})
  \cup (IF Given(v, "required") THEN {Put(v, "required", JArr(v.o["required"].a \o v.o["required"].a))} ELSE {})
  \* a keyword of the wrong kind may still be null
  \cup {JObj([k \in DOMAIN v.o \cup {"properties", "items", "oneOf", "additionalProperties", "patternProperties", "additionalItems",
                                       "minItems", "maxItems", "format", "description", "title", "allOf"} |-> IF Has(v, k) THEN v.o[k] ELSE JNull])}
\* Keywords for another type than the one given say nothing.
IdleSpellings(v) ==
  LET int == JObj("type" :> JStr("integer"))
      ofArrays == ("items" :> int) @@ ("additionalItems" :> JBool(FALSE)) @@ ("minItems" :> JInt(1)) @@ ("maxItems" :> JInt(3))
      ofObjects == ("properties" :> JObj("p" :> int)) @@ ("required" :> JArr(<<JStr("p")>>)) @@ ("additionalProperties" :> int)
                   @@ ("patternProperties" :> JObj("^p" :> int)) @@ ("oneOf" :> JArr(<<int>>))
      With(w) == {Put(v, k, w[k]) : k \in {x \in DOMAIN w : ~Has(v, x)}}
      t == TypeText(v)
  IN (IF AsObject(v) \/ t \notin {"", "array"} THEN With(ofArrays) \cup With("items" :> JArr(<<int>>)) ELSE {})
     \cup (IF t \notin {"", "object"} THEN With(ofObjects) ELSE {})
     \cup (IF NoText(v) \/ t \notin {"", "string"} THEN With("format" :> JStr("date-time")) ELSE {})
Respelt(v) == IF ~Accepted(v) THEN {}
              ELSE (TypeSpellings(v) \cup AltSpellings(v) \cup MapSpellings(v) \cup TupleSpellings(v) \cup OtherSpellings(v) \cup IdleSpellings(v)) \ {v}
=============================================================================
