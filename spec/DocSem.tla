------------------------------- MODULE DocSem -------------------------------
(***************************************************************************)
(* Documents.  Docs(v, c) lists documents that schema v describes: each    *)
(* part takes each of its forms, optional parts are there and not there.   *)
(* StorableA and StorableB say whether a document can be stored under an   *)
(* emitted schema; they return the set of obstacles <<what, where>>.       *)
(* Nothing here knows how the transpiler works.                            *)
(*                                                                         *)
(* c: [nc, ts, r, d] names snake-cased, tuples as structs, resolve method, *)
(* and how many levels up the document starts: far down, lists and maps    *)
(* carry one element, for otherwise a document doubles with every level.   *)
(***************************************************************************)
EXTENDS Shape, Views

\* a value that nothing is said about: a property that is required but not described
Wild == [j |-> "w"]
AnyDocs == <<JStr("any"), JInt(3), JObj("zz" :> JInt(1)), JArr(<<JBool(TRUE)>>), JNull>>

RECURSIVE Docs(_, _)
Cat2(a, b) == a \o b
RECURSIVE CatAll(_, _)
CatAll(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatAll(ss, i + 1)
Cycle(s, i) == s[((i - 1) % Len(s)) + 1]
MaxLen(ss) == IF ss = {} THEN 0 ELSE CHOOSE m \in {Len(x) : x \in ss} : \A y \in ss : Len(y) <= m
\* The properties of which one column is made are alternatives of one another:
\* only the one that names the column is used.
KeysUsed(ps, nc) == {k \in DOMAIN ps : Column(k, nc) = <<>> \/ Winner(DOMAIN ps, nc, Column(k, nc)[1]) = k}
Far(c) == c.d > 4
DocsOfObject(v, c) ==
  LET ps == v.o["properties"].o
      ds == TLCEval([k \in KeysUsed(ps, c.nc) |-> Docs(ps[k], c)])
      keys == {k \in DOMAIN ds : ds[k] # <<>>}
      req == Required(v) \cap keys
      n == MaxLen({ds[k] : k \in keys})
      free == [k \in Required(v) \ DOMAIN ps |-> Wild]
      Full(i) == JObj([k \in keys |-> Cycle(ds[k], i)] @@ free)
      Bare(i) == JObj([k \in req |-> Cycle(ds[k], i)] @@ free)
      \* required names that no document below can carry
      Lost(k) == \/ k \in DOMAIN ps /\ k \notin keys
                 \/ k \notin DOMAIN ps /\ \E x \in keys : Column(x, c.nc) = Column(k, c.nc) /\ Column(k, c.nc) # <<>>
  IN IF \E k \in Required(v) : Lost(k) THEN <<>>
     ELSE <<Bare(1)>> \o [i \in 1..n |-> Full(i)]
DocsOfMap(v, c) ==
  LET pats == SeqOfSet(DOMAIN Patterns(v))
      vs == AddlSchema(v) \o [i \in DOMAIN pats |-> Patterns(v)[pats[i]]]
      ds == CatAll(TLCEval([i \in DOMAIN vs |-> Docs(vs[i], c)]), 1)
  IN <<JObj(EmptyFn)>> \o [i \in DOMAIN ds |->
       IF Far(c) THEN JObj("k" :> ds[i]) ELSE JObj(("k" :> ds[i]) @@ ("k2" :> Cycle(ds, i + 1)))]
DocsOfTuple(v, c) ==
  LET given == v.o["items"].a
      len == Len(given)
      min == IF Given(v, "minItems") THEN CountOf(v.o["minItems"]) ELSE len
      top == IF Given(v, "maxItems") /\ Given(v, "additionalItems") /\ IsObj(v.o["additionalItems"])
             THEN CountOf(v.o["maxItems"]) ELSE IF Given(v, "maxItems") /\ CountOf(v.o["maxItems"]) < len THEN CountOf(v.o["maxItems"]) ELSE len
      item == TLCEval([i \in 1..top |-> IF i <= len THEN Docs(given[i], c) ELSE Docs(v.o["additionalItems"], c)])
      Of(n, i) == JArr([k \in 1..n |-> Cycle(item[k], i)])
      n == MaxLen({item[k] : k \in 1..top})
  IN IF min > top \/ \E k \in 1..top : item[k] = <<>> THEN <<>>
     ELSE CatAll([m \in 1..(top - min + 1) |-> [i \in 1..(IF n = 0 THEN 1 ELSE n) |-> Of(min + m - 1, i)]], 1)
DocsAs(v, atom, c) ==
  CASE atom = "null" -> <<JNull>>
    [] atom = "boolean" -> <<JBool(TRUE), JBool(FALSE)>>
    [] atom = "integer" -> <<JInt(7)>>
    [] atom = "number" -> <<JFloat("1.5"), JInt(7)>>
    [] atom = "string" -> <<JStr("text")>>
    [] atom = "bytes" -> <<JStr("Ynl0ZXM=")>>
    [] atom = "date-time" -> <<JStr("2020-01-02T03:04:05Z")>>
    [] atom = "array" ->
         IF IsObj(v.o["items"])
         THEN LET ds == TLCEval(Docs(v.o["items"], c))
              IN <<JArr(<<>>)>> \o [i \in DOMAIN ds |-> IF Far(c) THEN JArr(<<ds[i]>>) ELSE JArr(<<ds[i], Cycle(ds, i + 1)>>)]
         ELSE IF c.ts THEN DocsOfTuple(v, c) ELSE <<JArr(<<JInt(1), JStr("x")>>)>>
    [] atom = "object" ->
         IF Given(v, "properties") THEN DocsOfObject(v, c)
         ELSE IF IsMapSchema(v) THEN DocsOfMap(v, c)
         ELSE IF Given(v, "oneOf")
         THEN CatAll(TLCEval([i \in DOMAIN v.o["oneOf"].a |-> Docs(v.o["oneOf"].a[i], c)]), 1)
         ELSE AnyDocs
Docs(v, c0) ==
  LET ty == TypeOf(v)
      c == [c0 EXCEPT !.d = @ + 1]
      all == CatAll(TLCEval([i \in DOMAIN ty.atoms |-> DocsAs(v, ty.atoms[i], c)]), 1)
  IN IF Len(all) > 12 THEN SubSeq(all, 1, 12) ELSE all

(* ------------------------------- Avro ----------------------------------- *)
O(what, where) == {<<what, where>>}
KeysFor(doc, col, nc) == {k \in DOMAIN doc.o : Column(k, nc) = <<col>>}
RECURSIVE StorableA(_, _, _, _)
StorableA(a, doc, c, p) ==
  IF doc.j = "w" \/ (doc.j = "n" /\ (ANull(a) \/ AKind(a) = "null")) THEN {}
  ELSE LET k == AKind(a)
           Is(b) == IF b THEN {} ELSE O("value", p)
       IN CASE k = "null" -> Is(doc.j = "n")
            [] k = "boolean" -> Is(doc.j = "b")
            [] k = "long" -> Is(doc.j = "i")
            [] k = "double" -> Is(doc.j \in {"i", "f"})
            [] k = "bytes" -> Is(doc.j = "s")
            [] k = "string" -> Is(c.r = "cast" \/ doc.j = "s")
            [] k = "map" -> IF doc.j # "o" THEN O("value", p)
                            ELSE UNION {StorableA(AValues(a), doc.o[x], c, p \o "{}") : x \in DOMAIN doc.o}
            [] k = "array" ->
                 IF doc.j # "a" THEN O("value", p)
                 ELSE UNION {LET it == AItems(a)
                                 e == doc.a[i]
                             IN IF e.j \in {"a", "n"} /\ ~ANull(it) /\ AKind(it) = "record" /\ AFieldNames(it) = <<"list">>
                                THEN StorableA(AField(it, "list").o["type"], e, c, p \o "[].list")
                                ELSE StorableA(it, e, c, p \o "[]") : i \in DOMAIN doc.a}
            [] k = "record" ->
                 IF doc.j = "o"
                 THEN UNION {LET f == AFieldSeq(a)[i]
                                 col == f.o["name"].s
                                 ks == KeysFor(doc, col, c.nc)
                                 q == p \o "." \o col
                             IN IF ks = {} THEN IF "default" \in DOMAIN f.o THEN {} ELSE O("missing", q)
                                ELSE UNION {StorableA(f.o["type"], doc.o[x], c, q) : x \in ks}
                             : i \in DOMAIN AFieldSeq(a)}
                 ELSE IF doc.j = "a"
                 THEN (IF Len(doc.a) > Len(AFieldSeq(a)) THEN O("value", p) ELSE {})
                      \cup UNION {LET f == AFieldSeq(a)[i]
                                      q == p \o "." \o f.o["name"].s
                                  IN IF i > Len(doc.a) THEN IF "default" \in DOMAIN f.o THEN {} ELSE O("missing", q)
                                     ELSE StorableA(f.o["type"], doc.a[i], c, q) : i \in DOMAIN AFieldSeq(a)}
                 ELSE O("value", p)
            [] OTHER -> O("value", p)

(* ------------------------------- BigQuery ------------------------------- *)
IsPairs(c) == NamesOf(CFields(c)) \in {<<"key">>, <<"key", "value">>}
RECURSIVE StorableB(_, _, _, _)
RECURSIVE StorableRow(_, _, _, _)
\* an element of type col (its mode apart)
StorableT(col, doc, c, p) ==
  LET k == CType(col)
      Is(b) == IF b THEN {} ELSE O("value", p)
  IN CASE k = "BOOL" -> Is(doc.j = "b")
       [] k = "INT64" -> Is(doc.j = "i")
       [] k = "FLOAT64" -> Is(doc.j \in {"i", "f"})
       [] k \in {"BYTES", "TIMESTAMP"} -> Is(doc.j = "s")
       [] k = "STRING" -> Is(c.r = "cast" \/ doc.j = "s")
       [] k = "JSON" -> {}
       [] k = "RECORD" ->
            IF doc.j = "o" THEN StorableRow(CFields(col), doc, c, p)
            ELSE IF doc.j = "a"
            THEN LET fs == CFields(col)
                     n == Len(doc.a)
                     At0(i) == LET h == {x \in Range(fs) : CName(x) = "f" \o NatText(i - 1) \o "_"}
                               IN IF h = {} THEN <<>> ELSE <<CHOOSE x \in h : TRUE>>
                 IN (IF n > Len(fs) THEN O("value", p) ELSE {})
                    \cup UNION {LET q == p \o "." \o ("f" \o NatText(i - 1) \o "_")
                                IN IF At0(i) = <<>> THEN O("value", q)
                                   ELSE IF i > n THEN IF CMode(At0(i)[1]) = "REQUIRED" THEN O("missing", q) ELSE {}
                                   ELSE StorableB(At0(i)[1], doc.a[i], c, q) : i \in DOMAIN fs}
            ELSE O("value", p)
       [] OTHER -> O("value", p)
StorableB(col, doc, c, p) ==
  CASE doc.j = "w" -> {}
    [] CMode(col) = "REQUIRED" -> IF doc.j = "n" /\ ~(CType(col) = "STRING" /\ c.r = "cast") /\ CType(col) # "JSON"
                                  THEN O("null", p) ELSE StorableT(col, doc, c, p)
    [] CMode(col) = "NULLABLE" -> IF doc.j = "n" THEN {} ELSE StorableT(col, doc, c, p)
    [] CMode(col) = "REPEATED" ->
         IF doc.j = "n" THEN {}                                 \* stored as no elements
         ELSE IF doc.j = "a"
         THEN UNION {LET e == doc.a[i] IN
                     IF e.j = "n" THEN {}                       \* BigQuery has no null elements
                     ELSE IF e.j = "a" /\ CType(col) = "RECORD" /\ NamesOf(CFields(col)) = <<"list">>
                     THEN StorableB(CFields(col)[1], e, c, p \o ".list")
                     ELSE LET s == StorableT(col, e, c, p \o "[]")
                          IN IF s # {} /\ e.j = "o" /\ CType(col) = "RECORD" /\ IsPairs(col)
                             THEN O("array-of-maps", p) \cup
                                  (IF Len(CFields(col)) = 1 THEN {}
                                   ELSE UNION {StorableB(CFields(col)[2], e.o[x], c, p \o "[].value") : x \in DOMAIN e.o})
                             ELSE s
                     : i \in DOMAIN doc.a}
         ELSE IF doc.j = "o" /\ CType(col) = "RECORD" /\ IsPairs(col)
         THEN IF Len(CFields(col)) = 1 THEN {}
              ELSE UNION {StorableB(CFields(col)[2], doc.o[x], c, p \o ".value") : x \in DOMAIN doc.o}
         ELSE O("value", p)
StorableRow(cols, doc, c, p) ==
  UNION {LET col == cols[i]
             ks == KeysFor(doc, CName(col), c.nc)
             q == p \o "." \o CName(col)
         IN IF ks = {} THEN IF CMode(col) = "REQUIRED" THEN O("missing", q) ELSE {}
            ELSE UNION {StorableB(col, doc.o[x], c, q) : x \in ks} : i \in DOMAIN cols}
\* A row: the columns of an object or of a tuple, or the column "root".
StorableTable(cols, doc, c, single) ==
  IF single THEN IF NamesOf(cols) = <<"root">> THEN StorableB(cols[1], doc, c, "root") ELSE O("value", "root")
  ELSE IF doc.j = "n" THEN {}
  ELSE StorableT(JObj(("type" :> JStr("RECORD")) @@ ("fields" :> JArr(cols))), doc, c, "")
=============================================================================
