-------------------------------- MODULE Shape -------------------------------
(***************************************************************************)
(* What a schema means, in one compositional definition: the type of the   *)
(* values it describes, with nullability.  It is written from the          *)
(* documentation, not from the passes: no names are inferred, no tree is   *)
(* rewritten, unions are joined in a lattice.  MCTranspile checks that the *)
(* passes of Ast.tla compute it (Refines), and the conformance checks      *)
(* judge the real program by it.                                           *)
(*                                                                         *)
(* c: [nc, ts] normalize case, tuples as structs.                          *)
(***************************************************************************)
EXTENDS Schema, Names, Regexp

\* k: null, atom, object, map, array, tuple; "json" is the atom of everything
Sn(k, a, f, req, xs, nul) == [k |-> k, a |-> a, f |-> f, req |-> req, xs |-> xs, nul |-> nul]
SNull == Sn("null", "", EmptyFn, {}, <<>>, TRUE)
SAtom(a) == Sn("atom", a, EmptyFn, {}, <<>>, FALSE)
SJson == SAtom("json")
IsSJson(n) == n.k = "atom" /\ n.a = "json"
Maybe(n, b) == [n EXCEPT !.nul = @ \/ b]

(* ---- the lattice of types: the least type that holds all alternatives ---- *)
AtomJoin(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE
               ELSE IF S = {"integer", "number"} THEN "number" ELSE "json"
RECURSIVE Lub(_)
\* S: the alternatives, as a sequence; the result does not depend on the order.
Lub(S) ==
  LET xs == SelectSeq(S, LAMBDA x : x.k # "null")
      nul == \E i \in DOMAIN S : S[i].nul
      All(k) == \A i \in DOMAIN xs : xs[i].k = k
      m == IF xs = <<>> THEN SNull
           ELSE IF Len(xs) = 1 THEN xs[1]
           ELSE IF All("atom") THEN SAtom(AtomJoin({xs[i].a : i \in DOMAIN xs}))
           ELSE IF All("array") \/ All("map")
           THEN Sn(xs[1].k, "", EmptyFn, {}, <<Lub([i \in DOMAIN xs |-> xs[i].xs[1]])>>, FALSE)
           ELSE IF All("object")
           THEN LET cols == UNION {DOMAIN xs[i].f : i \in DOMAIN xs}
                    req == {c \in UNION {xs[i].req : i \in DOMAIN xs} : \A i \in DOMAIN xs : c \in xs[i].req}
                    With(c) == SelectSeq(xs, LAMBDA x : c \in DOMAIN x.f)
                    f == TLCEval([c \in cols |->
                           Maybe(Lub([i \in DOMAIN With(c) |-> With(c)[i].f[c]]), c \notin req)])
                IN \* an object with an ambiguous part is ambiguous once it is merged
                   IF \E c \in cols : IsSJson(f[c]) THEN SJson
                   ELSE Sn("object", "", f, req, <<>>, FALSE)
           ELSE SJson
  IN [m EXCEPT !.nul = nul]

RECURSIVE Meaning(_, _)
TupleMeaning(v, c) ==
  LET given == v.o["items"].a
      len == Len(given)
      min == IF Given(v, "minItems") THEN CountOf(v.o["minItems"]) ELSE len
      more == IF Given(v, "additionalItems") /\ IsObj(v.o["additionalItems"])
              THEN CountOf(v.o["maxItems"]) - len ELSE 0
  IN Sn("tuple", "", EmptyFn, {},
        TLCEval([i \in 1..len |-> Maybe(Meaning(given[i], c), i > min)]
          \o [i \in 1..more |-> Maybe(Meaning(v.o["additionalItems"], c), TRUE)]), FALSE)

MeaningAs(v, atom, c) ==
  CASE atom = "null" -> SNull
    [] atom = "date-time" -> SAtom("datetime")
    [] atom \in {"boolean", "number", "integer", "string", "bytes"} -> SAtom(atom)
    [] atom = "array" ->
         IF IsObj(v.o["items"]) THEN Sn("array", "", EmptyFn, {}, <<Meaning(v.o["items"], c)>>, FALSE)
         ELSE IF c.ts THEN TupleMeaning(v, c) ELSE SJson
    [] atom = "object" ->
         IF Given(v, "properties")
         THEN LET ps == v.o["properties"].o
                  cols == ColumnsOf(DOMAIN ps, c.nc)
                  req == ColumnsOf(Required(v), c.nc)
              IN Sn("object", "",
                    TLCEval([x \in cols |-> Maybe(Meaning(ps[Winner(DOMAIN ps, c.nc, x)], c), x \notin req)]),
                    req, <<>>, FALSE)
         ELSE IF IsMapSchema(v)
         THEN LET pats == SeqOfSet(DOMAIN Patterns(v))
                  vals == AddlSchema(v) \o [i \in DOMAIN pats |-> Patterns(v)[pats[i]]]
              IN Sn("map", "", EmptyFn, {}, <<Lub(TLCEval([i \in DOMAIN vals |-> Meaning(vals[i], c)]))>>, FALSE)
         ELSE IF Given(v, "oneOf")
         THEN LET alts == v.o["oneOf"].a
              IN Lub(TLCEval([i \in DOMAIN alts |-> Meaning(alts[i], c)]))
         ELSE SJson

Meaning(v, c) ==
  LET ty == TypeOf(v) IN
  IF ~ty.list THEN MeaningAs(v, ty.atoms[1], c)
  ELSE Lub(TLCEval([i \in DOMAIN ty.atoms |-> MeaningAs(v, ty.atoms[i], c)]))

RECURSIVE ForceAll(_)
ForceAll(n) == [n EXCEPT !.nul = TRUE,
                         !.f = TLCEval([x \in DOMAIN n.f |-> ForceAll(n.f[x])]),
                         !.xs = TLCEval([i \in DOMAIN n.xs |-> ForceAll(n.xs[i])])]

(* ---- which schemas are supported at all -------------------------------- *)
RECURSIVE Buildable(_, _)
AllBuildable(s, ts) == \A i \in DOMAIN s : Buildable(s[i], ts)
TupleOk(v) ==
  LET len == Len(v.o["items"].a)
      max == IF Given(v, "maxItems") THEN CountOf(v.o["maxItems"]) ELSE 0
  IN IF ~Given(v, "additionalItems") THEN max = len
     ELSE IF IsBool(v.o["additionalItems"]) THEN ~v.o["additionalItems"].b
     ELSE max >= len
BuildableAs(v, atom, ts) ==
  CASE atom = "array" ->
         /\ Given(v, "items")
         /\ IF IsObj(v.o["items"]) THEN Buildable(v.o["items"], ts)
            ELSE ts => /\ AllBuildable(v.o["items"].a, ts) /\ TupleOk(v)
                       /\ \* the schema of further items counts when there are any
                          (Given(v, "additionalItems") /\ IsObj(v.o["additionalItems"])
                           /\ CountOf(v.o["maxItems"]) > Len(v.o["items"].a)
                           => Buildable(v.o["additionalItems"], ts))
    [] atom = "object" ->
         IF Given(v, "properties")
         THEN \A k \in DOMAIN v.o["properties"].o : Buildable(v.o["properties"].o[k], ts)
         ELSE IF IsMapSchema(v)
         THEN AllBuildable(AddlSchema(v), ts) /\ \A k \in DOMAIN Patterns(v) : Buildable(Patterns(v)[k], ts)
         ELSE Given(v, "oneOf") => AllBuildable(v.o["oneOf"].a, ts)
    [] OTHER -> TRUE
Buildable(v, ts) == LET ty == TypeOf(v) IN ty.ok /\ \A i \in DOMAIN ty.atoms : BuildableAs(v, ty.atoms[i], ts)

\* No part that is kept is a choice among no alternatives.
RECURSIVE Inhabited(_, _)
InhabitedAs(v, atom, c) ==
  CASE atom = "array" ->
         IF IsObj(v.o["items"]) THEN Inhabited(v.o["items"], c)
         ELSE c.ts => /\ \A i \in DOMAIN v.o["items"].a : Inhabited(v.o["items"].a[i], c)
                      /\ (Given(v, "additionalItems") /\ IsObj(v.o["additionalItems"])
                          /\ CountOf(v.o["maxItems"]) > Len(v.o["items"].a)
                          => Inhabited(v.o["additionalItems"], c))
    [] atom = "object" ->
         IF Given(v, "properties")
         THEN LET ps == v.o["properties"].o
              IN \A x \in ColumnsOf(DOMAIN ps, c.nc) : Inhabited(ps[Winner(DOMAIN ps, c.nc, x)], c)
         ELSE IF IsMapSchema(v)
         THEN (\A i \in DOMAIN AddlSchema(v) : Inhabited(AddlSchema(v)[i], c))
              /\ \A k \in DOMAIN Patterns(v) : Inhabited(Patterns(v)[k], c)
         ELSE Given(v, "oneOf") =>
              v.o["oneOf"].a # <<>> /\ \A i \in DOMAIN v.o["oneOf"].a : Inhabited(v.o["oneOf"].a[i], c)
    [] OTHER -> TRUE
Inhabited(v, c) == LET ty == TypeOf(v)
                   IN ty.atoms # <<>> /\ \A i \in DOMAIN ty.atoms : InhabitedAs(v, ty.atoms[i], c)

Supported(v, c) == Accepted(v) /\ Buildable(v, c.ts) /\ Inhabited(v, c)

(* ---- ambiguity: what a target cannot represent faithfully --------------- *)
\* t: target, rx: <<regex>> selects paths as JSON columns (BigQuery only), or <<>>
JsonAt(rx, path) == rx # <<>> /\ Match(rx[1], IF path = "" THEN "__unknown__" ELSE path)
Sub(path, x) == IF path = "" THEN x ELSE path \o "." \o x
\* A record needs at least one field; an object or a tuple with some is one.
Hollow(n) == (n.k = "object" /\ DOMAIN n.f = {}) \/ (n.k = "tuple" /\ n.xs = <<>>)
IsRecord(n) == n.k \in {"object", "tuple"} /\ ~Hollow(n)
RECURSIVE Ambiguous(_, _, _, _)
Ambiguous(n, t, path, rx) ==
  CASE n.k = "null" -> t = "bq"
    [] n.k = "atom" -> n.a = "json" /\ ~(t = "bq" /\ JsonAt(rx, path))
    [] n.k = "object" -> Hollow(n) \/ \E x \in DOMAIN n.f : Ambiguous(n.f[x], t, Sub(path, x), rx)
    [] n.k = "array" -> Ambiguous(n.xs[1], t, Sub(path, "list"), rx)
    [] n.k = "map" -> Ambiguous(n.xs[1], t, Sub(path, "value"), rx)
    [] n.k = "tuple" -> Hollow(n) \/ \E i \in DOMAIN n.xs : Ambiguous(n.xs[i], t, Sub(path, "f" \o NatText(i - 1) \o "_"), rx)

\* What is left when every ambiguous part is dropped: <<>> or <<node>>.
RECURSIVE Pruned(_, _, _, _, _)
Pruned(n, t, mw, path, rx) ==
  CASE n.k = "null" -> IF t = "bq" THEN <<>> ELSE <<n>>
    [] n.k = "atom" -> IF Ambiguous(n, t, path, rx) THEN <<>> ELSE <<n>>
    [] n.k = "object" ->
         LET r == TLCEval([x \in DOMAIN n.f |-> Pruned(n.f[x], t, mw, Sub(path, x), rx)])
             kept == {x \in DOMAIN n.f : r[x] # <<>>}
         IN IF kept = {} THEN <<>> ELSE <<[n EXCEPT !.f = TLCEval([x \in kept |-> r[x][1]])]>>
    [] n.k = "array" ->
         LET r == Pruned(n.xs[1], t, mw, Sub(path, "list"), rx)
         IN IF r = <<>> THEN <<>> ELSE <<[n EXCEPT !.xs = r]>>
    [] n.k = "map" ->
         LET r == Pruned(n.xs[1], t, mw, Sub(path, "value"), rx)
         IN IF r = <<>> /\ ~(mw /\ t = "bq") THEN <<>> ELSE <<[n EXCEPT !.xs = r]>>
    [] n.k = "tuple" ->
         LET r == TLCEval([i \in DOMAIN n.xs |-> Pruned(n.xs[i], t, mw, Sub(path, "f" \o NatText(i - 1) \o "_"), rx)])
         IN IF r = <<>> \/ \E i \in DOMAIN r : r[i] = <<>> THEN <<>>
            ELSE <<[n EXCEPT !.xs = TLCEval([i \in DOMAIN r |-> r[i][1]])]>>

=============================================================================
