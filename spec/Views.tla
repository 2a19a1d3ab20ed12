-------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* Reading the emitted schemas, whoever emitted them: shapes, accessors,   *)
(* and Diff, which says where and in which respect two of them differ.     *)
(***************************************************************************)
EXTENDS Names, Json2

(* ------------------------------- Avro ----------------------------------- *)
AvroPrims == {"null", "boolean", "int", "long", "float", "double", "bytes", "string"}
Text1(x, k) == k \in DOMAIN x.o /\ x.o[k].j = "s"
\* The grammar of what may be emitted.  A nullable type is exactly [null, type].
RECURSIVE IsAvro(_)
IsAvroType(x) ==
  /\ x.j = "o" /\ Text1(x, "type")
  /\ LET t == x.o["type"].s IN
     \/ t \in AvroPrims /\ DOMAIN x.o = {"type"}
     \/ t = "array" /\ DOMAIN x.o = {"type", "items"} /\ IsAvro(x.o["items"])
     \/ t = "map" /\ DOMAIN x.o = {"type", "values"} /\ IsAvro(x.o["values"])
     \/ /\ t = "record"
        /\ DOMAIN x.o \in {{"type", "name", "fields"}, {"type", "name", "namespace", "fields"}}
        /\ Text1(x, "name") /\ ("namespace" \in DOMAIN x.o => Text1(x, "namespace"))
        /\ x.o["fields"].j = "a"
        /\ \A i \in DOMAIN x.o["fields"].a : LET f == x.o["fields"].a[i] IN
             /\ f.j = "o" /\ Text1(f, "name") /\ "type" \in DOMAIN f.o
             /\ DOMAIN f.o \subseteq {"name", "type", "default"}
             /\ ("default" \in DOMAIN f.o => f.o["default"].j = "n")
             /\ IsAvro(f.o["type"])
IsAvro(x) ==
  \/ IsAvroType(x)
  \/ /\ x.j = "a" /\ Len(x.a) = 2 /\ IsAvroType(x.a[1]) /\ x.a[1].o["type"].s = "null"
     /\ IsAvroType(x.a[2]) /\ x.a[2].o["type"].s # "null"

ANull(x) == x.j = "a"
ABody(x) == IF x.j = "a" THEN x.a[2] ELSE x
AKind(x) == ABody(x).o["type"].s
AItems(x) == ABody(x).o["items"]
AValues(x) == ABody(x).o["values"]
AFieldSeq(x) == ABody(x).o["fields"].a
AFieldNames(x) == [i \in DOMAIN AFieldSeq(x) |-> AFieldSeq(x)[i].o["name"].s]
AField(x, c) == LET s == AFieldSeq(x) IN s[CHOOSE i \in DOMAIN s : s[i].o["name"].s = c]
ARecName(x) == <<ABody(x).o["name"].s,
                 IF "namespace" \in DOMAIN ABody(x).o THEN ABody(x).o["namespace"].s ELSE "">>

\* all types in x, including x
RECURSIVE ASubs(_)
ASubs(x) == {x} \cup
  (CASE AKind(x) = "array" -> ASubs(AItems(x))
     [] AKind(x) = "map" -> ASubs(AValues(x))
     [] AKind(x) = "record" -> UNION {ASubs(AFieldSeq(x)[i].o["type"]) : i \in DOMAIN AFieldSeq(x)}
     [] OTHER -> {})

(* ------------------------------- BigQuery ------------------------------- *)
BqPrims == {"INT64", "FLOAT64", "BOOL", "STRING", "BYTES", "TIMESTAMP", "JSON"}
BqModes == {"NULLABLE", "REQUIRED", "REPEATED"}
RECURSIVE IsBqColumn(_)
IsBqColumn(x) ==
  /\ x.j = "o" /\ Text1(x, "type") /\ Text1(x, "mode") /\ x.o["mode"].s \in BqModes
  /\ ("name" \in DOMAIN x.o => Text1(x, "name"))
  /\ ("description" \in DOMAIN x.o => Text1(x, "description"))
  /\ DOMAIN x.o \subseteq {"type", "mode", "name", "description", "fields"}
  /\ IF x.o["type"].s = "RECORD"
     THEN /\ "fields" \in DOMAIN x.o /\ x.o["fields"].j = "a"
          /\ \A i \in DOMAIN x.o["fields"].a : IsBqColumn(x.o["fields"].a[i])
     ELSE x.o["type"].s \in BqPrims /\ "fields" \notin DOMAIN x.o
IsBq(x) == x.j = "a" /\ \A i \in DOMAIN x.a : IsBqColumn(x.a[i])

CName(c) == IF "name" \in DOMAIN c.o THEN c.o["name"].s ELSE ""
CType(c) == c.o["type"].s
CMode(c) == c.o["mode"].s
CDesc(c) == IF "description" \in DOMAIN c.o THEN <<c.o["description"].s>> ELSE <<>>
CFields(c) == IF "fields" \in DOMAIN c.o THEN c.o["fields"].a ELSE <<>>
NamesOf(cols) == [i \in DOMAIN cols |-> CName(cols[i])]
ColNamed(cols, n) == cols[CHOOSE i \in DOMAIN cols : CName(cols[i]) = n]
\* all column lists in a column list
RECURSIVE CLists(_)
CLists(cols) == {cols} \cup UNION {CLists(CFields(cols[i])) : i \in {k \in DOMAIN cols : CType(cols[k]) = "RECORD"}}
RECURSIVE CAll(_)
CAll(cols) == UNION {{cols[i]} \cup CAll(CFields(cols[i])) : i \in DOMAIN cols}

(* ------------------------------- Diff ------------------------------------ *)
(* Respects: outcome (converted or not), malformed, columns (names present), *)
(* order, kind (record/array/map/leaf), leaf (which primitive), null,        *)
(* name (Avro record names), desc.                                           *)
D(what, path) == {<<what, path>>}
RECURSIVE DiffA(_, _, _)
DiffA(e, a, p) ==
  IF e = a THEN {}
  ELSE (IF ANull(e) # ANull(a) THEN D("null", p) ELSE {}) \cup
    (IF AKind(e) # AKind(a)
     THEN IF AKind(e) \in AvroPrims /\ AKind(a) \in AvroPrims THEN D("leaf", p) ELSE D("kind", p)
     ELSE CASE AKind(e) = "array" -> DiffA(AItems(e), AItems(a), p \o "[]")
            [] AKind(e) = "map" -> DiffA(AValues(e), AValues(a), p \o "{}")
            [] AKind(e) = "record" ->
                 LET ne == AFieldNames(e)
                     na == AFieldNames(a)
                 IN (IF ARecName(e) # ARecName(a) THEN D("name", p) ELSE {})
                    \cup (IF Range(ne) # Range(na) \/ Len(ne) # Len(na) THEN D("columns", p)
                          ELSE IF ne # na THEN D("order", p) ELSE {})
                    \cup UNION {LET fe == AField(e, c)
                                    fa == AField(a, c)
                                    q == p \o "." \o c
                                IN (IF ("default" \in DOMAIN fe.o) # ("default" \in DOMAIN fa.o)
                                    THEN D("null", q) ELSE {})
                                   \cup DiffA(fe.o["type"], fa.o["type"], q)
                                : c \in Range(ne) \cap Range(na)}
            [] OTHER -> {})

RECURSIVE DiffCols(_, _, _)
DiffCol(e, a, p) ==
  IF e = a THEN {}
  ELSE (IF CMode(e) # CMode(a)
        THEN IF "REPEATED" \in {CMode(e), CMode(a)} THEN D("kind", p) ELSE D("null", p) ELSE {})
       \cup (IF CDesc(e) # CDesc(a) THEN D("desc", p) ELSE {})
       \cup (IF CName(e) # CName(a) THEN D("columns", p) ELSE {})
       \cup (IF CType(e) # CType(a)
             THEN IF "RECORD" \in {CType(e), CType(a)} THEN D("kind", p) ELSE D("leaf", p)
             ELSE DiffCols(CFields(e), CFields(a), p))
DiffCols(e, a, p) ==
  LET ne == NamesOf(e)
      na == NamesOf(a)
  IN (IF Range(ne) # Range(na) \/ Len(ne) # Len(na) THEN D("columns", p)
      ELSE IF ne # na THEN D("order", p) ELSE {})
     \cup UNION {DiffCol(ColNamed(e, c), ColNamed(a, c), p \o "." \o c) : c \in Range(ne) \cap Range(na)}

Shaped(t, v) == IF t = "avro" THEN IsAvro(v) ELSE IsBq(v)
Diff(t, e, a) ==
  IF e.r # "ok" \/ a.r # "ok" THEN IF e.r = a.r THEN {} ELSE D("outcome", e.r \o "/" \o a.r)
  ELSE IF e.v = a.v THEN {}
  ELSE IF ~Shaped(t, a.v) THEN D("malformed", "")
  ELSE LET d == IF t = "avro" THEN DiffA(e.v, a.v, "") ELSE DiffCols(e.v.a, a.v.a, "")
       IN IF d = {} THEN D("columns", "?") ELSE d
=============================================================================
