-------------------------------- MODULE Agree -------------------------------
(***************************************************************************)
(* Does an emitted schema agree with what the input means?  Both functions *)
(* return the set of disagreements <<respect, path>>, with the respects of *)
(* Views!Diff.  n is a shape that has been resolved: pruned when parts are *)
(* dropped; an ambiguous part that is left is represented by a string.     *)
(* rx: <<regex>> selects paths as JSON columns, or <<>>.                    *)
(***************************************************************************)
EXTENDS Shape, Views

AvroLeaf == [boolean |-> "boolean", integer |-> "long", number |-> "double", string |-> "string",
             datetime |-> "string", bytes |-> "bytes", json |-> "string"]
BqLeaf == [boolean |-> "BOOL", integer |-> "INT64", number |-> "FLOAT64", string |-> "STRING",
           datetime |-> "TIMESTAMP", bytes |-> "BYTES", json |-> "STRING"]
TupleName(i) == "f" \o NatText(i - 1) \o "_"

RECURSIVE AgreeA(_, _, _)
AgreeFieldsA(names, N(_), fs, p) ==
  LET got == [i \in DOMAIN fs |-> fs[i].o["name"].s]
  IN (IF Range(got) # names \/ Len(got) # Cardinality(names) THEN D("columns", p) ELSE {})
     \cup UNION {LET c == got[i]
                     f == fs[i]
                     q == p \o "." \o c
                 IN IF c \notin names THEN {}
                    ELSE (IF ("default" \in DOMAIN f.o) # N(c).nul THEN D("null", q) ELSE {})
                         \cup AgreeA(N(c), f.o["type"], q) : i \in DOMAIN fs}
AgreeA(n, a, p) ==
  (IF n.k # "null" /\ n.nul # ANull(a) THEN D("null", p) ELSE {}) \cup
  (CASE n.k = "null" -> IF ~ANull(a) /\ AKind(a) = "null" THEN {} ELSE D("leaf", p)
     [] n.k = "atom" -> IF AKind(a) = AvroLeaf[n.a] THEN {}
                        ELSE IF AKind(a) \in AvroPrims THEN D("leaf", p) ELSE D("kind", p)
     [] Hollow(n) -> IF AKind(a) = "string" THEN {} ELSE D("kind", p)
     [] n.k = "object" ->
          IF AKind(a) # "record" THEN D("kind", p)
          ELSE AgreeFieldsA(DOMAIN n.f, LAMBDA c : n.f[c], AFieldSeq(a), p)
     [] n.k = "tuple" ->
          IF AKind(a) # "record" THEN D("kind", p)
          ELSE LET idx == [c \in {TupleName(i) : i \in DOMAIN n.xs} |->
                             CHOOSE i \in DOMAIN n.xs : TupleName(i) = c]
               IN AgreeFieldsA(DOMAIN idx, LAMBDA c : n.xs[idx[c]], AFieldSeq(a), p)
                  \cup (IF AFieldNames(a) = [i \in DOMAIN n.xs |-> TupleName(i)] THEN {} ELSE D("order", p))
     [] n.k = "map" -> IF AKind(a) # "map" THEN D("kind", p) ELSE AgreeA(n.xs[1], AValues(a), p \o "{}")
     [] n.k = "array" ->
          IF AKind(a) # "array" THEN D("kind", p)
          ELSE IF n.xs[1].k # "array" THEN AgreeA(n.xs[1], AItems(a), p \o "[]")
          ELSE \* a list of lists: the inner list is the only field of a record
               LET w == AItems(a)
               IN IF ANull(w) \/ AKind(w) # "record" THEN D("kind", p \o "[]")
                  ELSE IF AFieldNames(w) # <<"list">> THEN D("columns", p \o "[]")
                  ELSE AgreeA(n.xs[1], AField(w, "list").o["type"], p \o "[].list"))

RECURSIVE AgreeB(_, _, _, _, _)
RECURSIVE AgreeTypeB(_, _, _, _, _)
\* the type of a column, its mode apart
AgreeColsB(names, N(_), cols, p, path, rx) ==
  LET got == NamesOf(cols)
  IN (IF Range(got) # names \/ Len(got) # Cardinality(names) THEN D("columns", p) ELSE {})
     \cup UNION {IF got[i] \notin names THEN {}
                 ELSE AgreeB(N(got[i]), cols[i], p \o "." \o got[i], Sub(path, got[i]), rx) : i \in DOMAIN cols}
AgreeTypeB(n, c, p, path, rx) ==
  LET Leaf(t) == IF CType(c) = t THEN {} ELSE IF CType(c) = "RECORD" THEN D("kind", p) ELSE D("leaf", p)
      Rec(S) == IF CType(c) # "RECORD" THEN D("kind", p) ELSE S
  IN CASE n.k = "null" -> Leaf("STRING")
       [] n.k = "atom" -> Leaf(IF n.a = "json" /\ JsonAt(rx, path) THEN "JSON" ELSE BqLeaf[n.a])
       [] Hollow(n) -> Leaf("STRING")
       [] n.k = "object" ->
            Rec(AgreeColsB(DOMAIN n.f, LAMBDA x : n.f[x], CFields(c), p, path, rx))
       [] n.k = "tuple" ->
            LET idx == [x \in {TupleName(i) : i \in DOMAIN n.xs} |->
                          CHOOSE i \in DOMAIN n.xs : TupleName(i) = x]
            IN Rec(AgreeColsB(DOMAIN idx, LAMBDA x : n.xs[idx[x]], CFields(c), p, path, rx))
       [] n.k = "map" ->
            LET names == IF n.xs = <<>> THEN <<"key">> ELSE <<"key", "value">>
                got == NamesOf(CFields(c))
            IN Rec(IF got # names THEN D("columns", p)
                   ELSE (IF CType(CFields(c)[1]) # "STRING" THEN D("leaf", p \o ".key") ELSE {})
                     \cup (IF CMode(CFields(c)[1]) # "REPEATED" THEN {} ELSE D("kind", p \o ".key"))
                     \cup (IF n.xs = <<>> THEN {}
                           ELSE AgreeB(n.xs[1], CFields(c)[2], p \o ".value", Sub(path, "value"), rx)))
       [] n.k = "array" ->
            IF n.xs[1].k = "array"
            THEN Rec(IF NamesOf(CFields(c)) # <<"list">> THEN D("columns", p)
                     ELSE AgreeB(n.xs[1], CFields(c)[1], p \o ".list", Sub(path, "list"), rx))
            ELSE AgreeTypeB(n.xs[1], c, p \o "[]", Sub(path, "list"), rx)
AgreeB(n, c, p, path, rx) ==
  LET mode == IF n.k \in {"array", "map"} THEN "REPEATED"
              ELSE IF n.nul THEN "NULLABLE" ELSE "REQUIRED"
  IN (IF CMode(c) = mode THEN {}
      ELSE IF "REPEATED" \in {mode, CMode(c)} THEN D("kind", p) ELSE D("null", p))
     \cup AgreeTypeB(n, c, p, path, rx)

\* The root: the columns of an object or tuple, or a single column "root".
AgreeRootB(n, v, rx) ==
  IF IsRecord(n)
  THEN AgreeTypeB(n, JObj(("type" :> JStr("RECORD")) @@ ("fields" :> v)), "", "", rx)
  ELSE IF NamesOf(v.a) # <<"root">> THEN D("columns", "")
  ELSE AgreeB(n, v.a[1], "root", "", rx)
=============================================================================
