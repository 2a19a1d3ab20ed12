-------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties.  An observation o is                                    *)
(*   [id, kind, parts |-> << [schema, calls |-> << [t, r, c, n, u, w, x,   *)
(*                                                  out] >>] >>]           *)
(* where out is what was returned for the schema under those options.      *)
(* Fails(p, o) is the set of ways in which o contradicts property p.  The  *)
(* same operators judge the specification's own behaviours (MCProps.tla)   *)
(* and recorded calls of the real program (Judge.tla).                     *)
(***************************************************************************)
EXTENDS Pipeline, Agree, DocSem

Ctx(c) == [r |-> c.r, nc |-> c.c, fn |-> c.n, ts |-> c.u, mw |-> c.w, rx |-> c.x]
Eff(v, c) == Effective(v, Ctx(c))
MCtx(c) == [nc |-> c.c, ts |-> c.u]
Means(v, c) == LET n == Meaning(v, MCtx(c)) IN IF c.n THEN ForceAll(n) ELSE n
Sup(v, c) == Supported(v, MCtx(c))
AmbIn(v, c) == Ambiguous(Means(v, c), c.t, "", Eff(v, c).rx)
PrunedOf(v, c) == Pruned(Means(v, c), c.t, c.w, "", Eff(v, c).rx)
Good(c) == c.out.r = "ok" /\ Shaped(c.t, c.out.v)

\* every call of every part: <<part, call>>
Calls(o) == UNION {{<<i, k>> : k \in DOMAIN o.parts[i].calls} : i \in DOMAIN o.parts}
S(o, x) == o.parts[x[1]].schema
C(o, x) == o.parts[x[1]].calls[x[2]]
F(tag, x, d) == {<<tag, x, y>> : y \in d}
\* calls that agree on everything but the options in free
SameBut(c, d, free) ==
  /\ "t" \in free \/ c.t = d.t
  /\ "r" \in free \/ c.r = d.r
  /\ "c" \in free \/ c.c = d.c
  /\ "n" \in free \/ c.n = d.n
  /\ "u" \in free \/ c.u = d.u
  /\ "w" \in free \/ c.w = d.w
  /\ "x" \in free \/ c.x = d.x
Mate(o, x, P(_)) == {y \in Calls(o) : y[1] = x[1] /\ y # x /\ P(C(o, y))}

(* --- conformance to the state machine, in the respects a property is about *)
Malformed(o) == UNION {LET c == C(o, x) IN
   IF c.out.r = "ok" /\ ~Shaped(c.t, c.out.v) THEN {<<"malformed", x, "">>} ELSE {} : x \in Calls(o)}
Conform(o, respects) ==
  UNION {LET d == Diff(C(o, x).t, Run(S(o, x), C(o, x).t, Ctx(C(o, x))), C(o, x).out)
         IN F("differs", x, {y \in d : y[1] \in respects}) : x \in Calls(o)}
\* kept apart: only the calls for which a property speaks
Only(o, fails, cond(_, _)) == {f \in fails : cond(S(o, f[2]), C(o, f[2]))}
All == {"outcome", "columns", "order", "kind", "leaf", "null", "name", "desc", "malformed"}

(* --- agreement with the meaning of the schema ----------------------------- *)
AgreeOf(v, c) ==
  LET n == IF c.r = "drop" THEN PrunedOf(v, c) ELSE <<Means(v, c)>>
  IN IF n = <<>> THEN D("outcome", "")
     ELSE IF c.t = "avro" THEN AgreeA(n[1], c.out.v, "") ELSE AgreeRootB(n[1], c.out.v, Eff(v, c).rx)
Agrees(o, respects) ==
  UNION {LET c == C(o, x) IN
         IF Good(c) /\ Sup(S(o, x), c)
         THEN F("disagrees", x, {y \in AgreeOf(S(o, x), c) : y[1] \in respects}) ELSE {} : x \in Calls(o)}

(* ======================= storing documents ================================ *)
DocC(c) == [nc |-> c.c, ts |-> c.u, r |-> c.r, d |-> 0]
StorableDocs(o, t) ==
  UNION {LET c == C(o, x)
             v == S(o, x)
         IN IF c.t # t \/ ~Good(c) \/ ~Sup(v, c) THEN {}
            ELSE LET ds == TLCEval(Docs(v, DocC(c)))
                     n == Means(v, c)
                     single == ~IsRecord(n)
                 IN UNION {F("not-storable", x,
                      IF t = "avro" THEN StorableA(c.out.v, ds[i], DocC(c), "")
                      ELSE StorableTable(c.out.v.a, ds[i], DocC(c), single)) : i \in DOMAIN ds}
         : x \in Calls(o)}
P_avro_sound(o) == StorableDocs(o, "avro")
P_bq_sound(o) == StorableDocs(o, "bq")

(* ======================= well-formedness ================================== *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, from, i) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF At(s, i) = "." THEN <<SubSeq(s, from, i - 1)>> \o SplitFrom(s, i + 1, i + 1)
  ELSE SplitFrom(s, from, i + 1)
SplitDots(s) == SplitFrom(s, 1, 1)
RECURSIVE JoinDots(_)
JoinDots(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "." \o JoinDots(Tail(ss))
RECURSIVE RecordNames(_)
RecordNames(a) ==
  CASE AKind(a) = "array" -> RecordNames(AItems(a))
    [] AKind(a) = "map" -> RecordNames(AValues(a))
    [] AKind(a) = "record" -> <<ARecName(a)>> \o
         CatAll([i \in DOMAIN AFieldSeq(a) |-> RecordNames(AFieldSeq(a)[i].o["type"])], 1)
    [] OTHER -> <<>>
DupRecord(a) == LET s == RecordNames(a) IN Cardinality(Range(s)) # Len(s)
AvroWell(a) ==
  LET subs == ASubs(a)
      recs == {s \in subs : AKind(s) = "record"}
      \* the record around an inner list; its field is never left out, and has no default
      wraps == {w \in {AItems(x) : x \in {s \in subs : AKind(s) = "array"}} :
                  AKind(w) = "record" /\ AFieldNames(w) = <<"list">>}
      Fs(s) == AFieldSeq(s)
      Segs(s) == SplitDots(ARecName(s)[2])
  IN UNION {
    LET names == AFieldNames(s) IN
      (IF Cardinality(Range(names)) # Len(names) THEN {"duplicate field"} ELSE {})
      \cup (IF names = <<>> THEN {"record without fields"} ELSE {})
      \cup (IF \A i \in DOMAIN names : IsLegalName(names[i]) THEN {} ELSE {"illegal field name"})
      \cup (IF IsLegalName(ARecName(s)[1]) THEN {} ELSE {"illegal record name"})
      \cup (IF ARecName(s)[2] = "" \/ \A i \in DOMAIN Segs(s) : IsLegalName(Segs(s)[i]) THEN {} ELSE {"illegal namespace"})
      \cup (IF \A i \in DOMAIN Fs(s) :
                 \/ (s \in wraps /\ "default" \notin DOMAIN Fs(s)[i].o)
                 \/ ("default" \in DOMAIN Fs(s)[i].o)
                      <=> (ANull(Fs(s)[i].o["type"]) \/ AKind(Fs(s)[i].o["type"]) = "null")
            THEN {} ELSE {"default does not fit the type"})
    : s \in recs}
   \cup (IF DupRecord(a) THEN {"record name used twice"} ELSE {})
   \cup (IF \A s \in subs : ~ANull(s) \/ ABody(s).o["type"].s # "null" THEN {} ELSE {"nullable null"})
P_avro_well(o) ==
  Only(o, Malformed(o), LAMBDA v, c : c.t = "avro")
  \cup UNION {IF C(o, x).t = "avro" /\ Good(C(o, x)) THEN F("ill-formed", x, AvroWell(C(o, x).out.v)) ELSE {} : x \in Calls(o)}
  \cup Only(o, Conform(o, {"name"}), LAMBDA v, c : c.t = "avro")

SortedNames(s) == \A i \in 1..(Len(s) - 1) : IsLegalName(s[i]) /\ IsLegalName(s[i + 1]) => Less(s[i], s[i + 1])
BqWell(cols) ==
  UNION {
    LET names == NamesOf(l) IN
      (IF l = <<>> THEN {"record without fields"} ELSE {})
      \cup (IF Cardinality(Range(names)) # Len(names) THEN {"duplicate column"} ELSE {})
      \cup (IF \A i \in DOMAIN names : IsLegalName(names[i]) THEN {} ELSE {"illegal column name"})
      \cup (IF SortedNames(names) THEN {} ELSE {"columns out of order"})
      \cup (IF \A i \in DOMAIN l : CDesc(l[i]) # <<>> => Len(CDesc(l[i])[1]) <= 1024 THEN {} ELSE {"description too long"})
    : l \in CLists(cols)}
P_bq_well(o) ==
  Only(o, Malformed(o), LAMBDA v, c : c.t = "bq")
  \cup UNION {IF C(o, x).t = "bq" /\ Good(C(o, x)) THEN F("ill-formed", x, BqWell(C(o, x).out.v.a)) ELSE {} : x \in Calls(o)}

(* ======================= the two targets agree ============================ *)
BqOf == [boolean |-> {"BOOL"}, long |-> {"INT64"}, double |-> {"FLOAT64"}, bytes |-> {"BYTES"},
         string |-> {"STRING", "TIMESTAMP"}, null |-> {"STRING"}]
RECURSIVE Same(_, _, _)
RECURSIVE SameType(_, _, _)
SameFields(a, cols, p) ==
  LET na == Range(AFieldNames(a))
      nb == Range(NamesOf(cols))
  IN (IF na # nb THEN D("columns", p) ELSE {})
     \cup UNION {Same(AField(a, x).o["type"], ColNamed(cols, x), p \o "." \o x) : x \in na \cap nb}
SameType(a, c, p) ==
  LET k == AKind(a) IN
  CASE k \in DOMAIN BqOf -> IF CType(c) \in BqOf[k] THEN {} ELSE D("leaf", p)
    [] k = "record" -> IF CType(c) # "RECORD" THEN D("kind", p) ELSE SameFields(a, CFields(c), p)
    [] k = "map" -> IF CType(c) = "RECORD" /\ NamesOf(CFields(c)) = <<"key", "value">>
                    THEN Same(AValues(a), CFields(c)[2], p \o "{}") ELSE D("kind", p)
    [] k = "array" ->
         IF AKind(AItems(a)) # "map" THEN SameType(AItems(a), c, p \o "[]")
         ELSE IF CType(c) = "RECORD" /\ IsPairs(c) THEN D("array-of-maps", p) ELSE D("kind", p)
    [] OTHER -> D("kind", p)
Same(a, c, p) ==
  LET mode == IF AKind(a) \in {"array", "map"} THEN "REPEATED"
              ELSE IF ANull(a) \/ AKind(a) = "null" THEN "NULLABLE" ELSE "REQUIRED"
  IN (IF CMode(c) # mode THEN D("null", p) ELSE {}) \cup SameType(a, c, p)
RECURSIVE HasNull(_)
HasNull(n) == \/ n.k = "null"
              \/ \E x \in DOMAIN n.f : HasNull(n.f[x])
              \/ \E i \in DOMAIN n.xs : HasNull(n.xs[i])
P_targets(o) ==
  UNION {
    LET c == C(o, x)
        v == S(o, x)
        ys == {y \in Calls(o) : y[1] = x[1] /\ C(o, y).t = "bq" /\ SameBut(c, C(o, y), {"t"})}
    IN IF c.t # "avro" \/ Eff(v, c).rx # <<>> \/ c.w THEN {}
       ELSE UNION {
         LET d == C(o, y)
             null == Sup(v, c) /\ c.r # "cast" /\ HasNull(Means(v, c))
         IN IF null THEN {}
            ELSE IF c.out.r # d.out.r THEN {<<"only one target converts", x, "">>}
            ELSE IF ~(Good(c) /\ Good(d)) THEN {}
            ELSE IF ~Sup(v, c) THEN {<<"converts", x, "">>}
            ELSE LET n == IF c.r = "drop" THEN PrunedOf(v, c) ELSE <<Means(v, c)>>
                     row == n # <<>> /\ IsRecord(n[1])
                     a == c.out.v
                 IN F("targets differ", x,
                      IF row THEN IF AKind(a) = "record" THEN SameFields(a, d.out.v.a, "") ELSE D("kind", "")
                      ELSE IF NamesOf(d.out.v.a) = <<"root">> THEN Same(a, d.out.v.a[1], "root") ELSE D("columns", ""))
         : y \in ys}
    : x \in Calls(o)} \cup Malformed(o)

(* ======================= resolution of ambiguity ========================== *)
P_cast_total(o) ==
  UNION {LET c == C(o, x)
             sup == Sup(S(o, x), c)
         IN IF c.r = "cast" /\ (c.out.r = "ok") # sup
            THEN {<<IF sup THEN "refused" ELSE "accepted", x, "">>}
            ELSE IF ~sup /\ c.out.r = "ok" THEN {<<"accepted", x, "">>} ELSE {} : x \in Calls(o)}
  \cup Malformed(o)
P_panic(o) ==
  UNION {LET c == C(o, x)
             v == S(o, x)
         IN IF c.r # "panic" THEN {}
            ELSE (IF (c.out.r = "ok") # (Sup(v, c) /\ ~AmbIn(v, c))
                  THEN {<<IF c.out.r = "ok" THEN "ambiguity not refused" ELSE "refused without ambiguity", x, "">>} ELSE {})
             \cup (IF c.out.r # "ok" THEN {}
                   ELSE {<<"panic mode converts differently", x, y>> : y \in
                          Mate(o, x, LAMBDA d : SameBut(c, d, {"r"}) /\ (d.out.r # "ok" \/ d.out.v # c.out.v))})
         : x \in Calls(o)}
  \cup Malformed(o)
\* what is left after dropping is a part of what casting gives
RECURSIVE PartA(_, _)
PartA(d, s) ==
  /\ ANull(d) = ANull(s) /\ AKind(d) = AKind(s)
  /\ CASE AKind(d) = "array" -> PartA(AItems(d), AItems(s))
       [] AKind(d) = "map" -> PartA(AValues(d), AValues(s))
       [] AKind(d) = "record" ->
            /\ ARecName(d) = ARecName(s)
            /\ Range(AFieldNames(d)) \subseteq Range(AFieldNames(s))
            /\ AFieldNames(d) = SelectSeq(AFieldNames(s), LAMBDA x : x \in Range(AFieldNames(d)))
            /\ \A x \in Range(AFieldNames(d)) :
                 /\ ("default" \in DOMAIN AField(d, x).o) = ("default" \in DOMAIN AField(s, x).o)
                 /\ PartA(AField(d, x).o["type"], AField(s, x).o["type"])
       [] OTHER -> TRUE
RECURSIVE PartB(_, _)
PartB(d, s) ==
  /\ Range(NamesOf(d)) \subseteq Range(NamesOf(s))
  /\ NamesOf(d) = SelectSeq(NamesOf(s), LAMBDA x : x \in Range(NamesOf(d)))
  /\ \A x \in Range(NamesOf(d)) :
       LET a == ColNamed(d, x)
           b == ColNamed(s, x)
       IN /\ CType(a) = CType(b) /\ CMode(a) = CMode(b) /\ CDesc(a) = CDesc(b)
          /\ PartB(CFields(a), CFields(b))
P_drop(o) ==
  UNION {LET c == C(o, x)
             v == S(o, x)
             sup == Sup(v, c)
         IN IF c.r # "drop" \/ ~sup THEN {}
            ELSE (IF (c.out.r = "ok") # (PrunedOf(v, c) # <<>>)
                  THEN {<<IF c.out.r = "ok" THEN "kept" ELSE "lost", x, "">>} ELSE {})
             \cup (IF ~Good(c) THEN {}
                   ELSE {<<"not a part of the cast", x, y>> : y \in
                     Mate(o, x, LAMBDA d : d.r = "cast" /\ SameBut(c, d, {"r"}) /\ Good(d)
                          /\ ~(IF c.t = "avro" THEN PartA(c.out.v, d.out.v) ELSE PartB(c.out.v.a, d.out.v.a)))})
         : x \in Calls(o)}
  \cup Only(o, Agrees(o, {"columns", "outcome"}) \cup Conform(o, {"columns", "outcome"}), LAMBDA v, c : c.r = "drop")
  \cup Malformed(o)

\* Does v contain a node of a kind, anywhere?
NodeIs(v, kind) ==
  CASE kind = "tuple" -> Has(v, "items") /\ v.o["items"].j = "a"
    [] kind = "map" -> \/ Has(v, "patternProperties")
                       \/ (Has(v, "additionalProperties") /\ v.o["additionalProperties"].j = "o")
    [] kind = "lists" -> Has(v, "items") /\ v.o["items"].j = "o"
    [] kind = "union" -> Has(v, "oneOf") \/ Has(v, "patternProperties")
                         \/ (Has(v, "type") /\ v.o["type"].j = "a")
RECURSIVE HasNode(_, _)
HasNode(v, kind) ==
  CASE v.j = "o" -> NodeIs(v, kind) \/ \E k \in DOMAIN v.o : HasNode(v.o[k], kind)
    [] v.j = "a" -> \E i \in DOMAIN v.a : HasNode(v.a[i], kind)
    [] OTHER -> FALSE

(* ======================= nullability ====================================== *)
P_nullability(o) == Agrees(o, {"null"}) \cup Conform(o, {"null"}) \cup Malformed(o)
RECURSIVE EraseA(_)
EraseA(a) ==
  LET b == ABody(a) IN
  CASE AKind(a) = "array" -> AvroArray(EraseA(AItems(a)))
    [] AKind(a) = "map" -> AvroMap(EraseA(AValues(a)))
    [] AKind(a) = "record" -> [b EXCEPT !.o["fields"] = JArr([i \in DOMAIN AFieldSeq(a) |->
            LET f == AFieldSeq(a)[i] IN JObj(("name" :> f.o["name"]) @@ ("type" :> EraseA(f.o["type"])))])]
    [] OTHER -> b
RECURSIVE EraseB(_)
EraseB(cols) == [i \in DOMAIN cols |->
   LET c == cols[i]
       m == IF CMode(c) = "REQUIRED" THEN [c EXCEPT !.o["mode"] = JStr("NULLABLE")] ELSE c
   IN IF CType(c) = "RECORD" THEN [m EXCEPT !.o["fields"] = JArr(EraseB(CFields(c)))] ELSE m]
Erased(c) == IF c.t = "avro" THEN EraseA(c.out.v) ELSE EraseB(c.out.v.a)
\* every type of a list of lists but the record around the inner list
AllNullA(a) == \A s \in ASubs(a) : ANull(s) \/ AKind(s) = "null"
                 \/ (AKind(s) = "record" /\ AFieldNames(s) = <<"list">>)
P_force(o) ==
  UNION {LET c == C(o, x) IN
    IF ~c.n THEN {}
    ELSE UNION {LET d == C(o, y) IN
           IF c.out.r # d.out.r THEN {<<"force nullable changes the outcome", x, y>>}
           ELSE IF ~(Good(c) /\ Good(d)) THEN {}
           ELSE IF TLCEval(Erased(c)) # TLCEval(Erased(d)) THEN {<<"force nullable changes more than nullability", x, y>>} ELSE {}
           : y \in Mate(o, x, LAMBDA d : ~d.n /\ SameBut(c, d, {"n"}))}
         \cup (IF ~Good(c) THEN {}
               ELSE IF c.t = "avro" THEN IF AllNullA(c.out.v) THEN {} ELSE {<<"not nullable", x, "">>}
               ELSE IF \E k \in CAll(c.out.v.a) : CMode(k) = "REQUIRED" THEN {<<"required column", x, "">>} ELSE {})
    : x \in Calls(o)}
  \cup Only(o, Agrees(o, {"null"}) \cup Conform(o, {"null"}), LAMBDA v, c : c.n)
  \cup Malformed(o)

(* ======================= names ============================================ *)
P_names(o) == Agrees(o, {"columns"}) \cup Conform(o, {"columns", "order", "name"}) \cup Malformed(o)

LooksLikeTuple(s) == /\ Len(s) > 2 /\ At(s, 1) = "f" /\ At(s, Len(s)) = "_"
                     /\ \A i \in 2..(Len(s) - 1) : At(s, i) \in Digits
SnakeCol(s) == IF LooksLikeTuple(s) THEN s ELSE Column(s, TRUE)[1]
RECURSIVE RelabelA(_)
RelabelA(a) ==
  LET b == ABody(a)
      m == CASE AKind(a) = "array" -> AvroArray(RelabelA(AItems(a)))
             [] AKind(a) = "map" -> AvroMap(RelabelA(AValues(a)))
             [] AKind(a) = "record" ->
                  JObj(("type" :> JStr("record")) @@ ("name" :> JStr(SnakeCol(ARecName(a)[1])))
                    @@ (IF ARecName(a)[2] = "" THEN EmptyFn
                        ELSE "namespace" :> JStr(JoinDots([i \in DOMAIN SplitDots(ARecName(a)[2]) |->
                                                   SnakeCol(SplitDots(ARecName(a)[2])[i])])))
                    @@ ("fields" :> JArr([i \in DOMAIN AFieldSeq(a) |->
                          JObj([k \in DOMAIN AFieldSeq(a)[i].o |->
                             CASE k = "name" -> JStr(SnakeCol(AFieldSeq(a)[i].o[k].s))
                               [] k = "type" -> RelabelA(AFieldSeq(a)[i].o[k])
                               [] OTHER -> AFieldSeq(a)[i].o[k]])])))
             [] OTHER -> b
  IN IF ANull(a) THEN JArr(<<a.a[1], m>>) ELSE m
RECURSIVE RelabelB(_)
RelabelB(cols) == [i \in DOMAIN cols |-> JObj([k \in DOMAIN cols[i].o |->
   CASE k = "name" -> JStr(SnakeCol(cols[i].o[k].s))
     [] k = "fields" -> JArr(RelabelB(cols[i].o[k].a))
     [] OTHER -> cols[i].o[k]])]
RECURSIVE PropNames(_)
PropNames(v) ==
  CASE v.j = "o" -> (IF "properties" \in DOMAIN v.o /\ v.o["properties"].j = "o"
                     THEN DOMAIN v.o["properties"].o ELSE {})
                    \cup (IF "required" \in DOMAIN v.o /\ v.o["required"].j = "a"
                          THEN {x.s : x \in {y \in Range(v.o["required"].a) : y.j = "s"}} ELSE {})
                    \cup UNION {PropNames(v.o[k]) : k \in DOMAIN v.o}
    [] v.j = "a" -> UNION {PropNames(v.a[i]) : i \in DOMAIN v.a}
    [] OTHER -> {}
\* no two names of the schema are mapped to the same column by either mapping
Injective(v) ==
  LET ns == {x \in PropNames(v) : Column(x, FALSE) # <<>>}
  IN /\ ~\E x, y \in ns : x # y /\ (Column(x, FALSE) = Column(y, FALSE) \/ Column(x, TRUE) = Column(y, TRUE))
     /\ ~\E x \in ns : LooksLikeTuple(Column(x, FALSE)[1])
P_normalize(o) ==
  UNION {LET c == C(o, x)
             v == S(o, x)
         IN IF ~c.c \/ Eff(v, c).rx # <<>> \/ ~Injective(v) THEN {}
            ELSE UNION {LET d == C(o, y) IN
              IF c.out.r # d.out.r THEN {<<"normalizing the case changes the outcome", x, y>>}
              ELSE IF ~(Good(c) /\ Good(d)) THEN {}
              ELSE F("normalizing the case changes more than names", x,
                     {z \in IF c.t = "avro" THEN DiffA(RelabelA(d.out.v), c.out.v, "")
                            ELSE DiffCols(RelabelB(d.out.v.a), c.out.v.a, "") : z[1] # "order"})
              : y \in Mate(o, x, LAMBDA d : ~d.c /\ SameBut(c, d, {"c"}))}
         : x \in Calls(o)}
  \cup Only(o, Agrees(o, {"columns"}) \cup Conform(o, {"columns", "name"}), LAMBDA v, c : c.c)
  \cup Malformed(o)

(* ======================= variants of one schema =========================== *)
\* kind "same": the k-th calls of all parts return the same.
Outcome(c) == IF c.out.r = "ok" THEN c.out ELSE [r |-> c.out.r]
SameParts(o, tag) ==
  UNION {UNION {IF Outcome(o.parts[i].calls[k]) = Outcome(o.parts[1].calls[k]) THEN {} ELSE {<<tag, <<i, k>>, "">>}
         : k \in DOMAIN o.parts[1].calls} : i \in 2..Len(o.parts)}
\* kind "nullable": part i + 1 is part i with null as another alternative.
NullParts(o) ==
  UNION {LET a == o.parts[1].calls[k]
             b == o.parts[2].calls[k]
         IN IF a.out.r # b.out.r THEN {<<"null changes the outcome", <<2, k>>, "">>}
            ELSE IF ~(Good(a) /\ Good(b)) THEN {}
            ELSE (IF TLCEval(Erased(a)) # TLCEval(Erased(b)) THEN {<<"null changes more than nullability", <<2, k>>, "">>} ELSE {})
                 \cup (IF a.t = "avro" THEN IF AKind(b.out.v) = "record" /\ "p" \in Range(AFieldNames(b.out.v))
                            /\ ~(ANull(AField(b.out.v, "p").o["type"]) \/ AKind(AField(b.out.v, "p").o["type"]) = "null")
                          THEN {<<"null is not admitted", <<2, k>>, "">>} ELSE {}
                       ELSE IF "p" \in Range(NamesOf(b.out.v.a)) /\ CMode(ColNamed(b.out.v.a, "p")) = "REQUIRED"
                            THEN {<<"null is not admitted", <<2, k>>, "">>} ELSE {})
         : k \in DOMAIN o.parts[1].calls}
P_union(o) ==
  (IF o.kind = "same" THEN SameParts(o, "the order of alternatives matters") ELSE {})
  \cup (IF o.kind = "nullable" THEN NullParts(o) ELSE {})
  \cup Only(o, Agrees(o, All) \cup Conform(o, All \ {"desc", "name", "order"}), LAMBDA v, c : HasNode(v, "union"))
  \cup Malformed(o)
P_inert(o) ==
  (IF o.kind = "same" THEN SameParts(o, "an irrelevant keyword matters") ELSE {})
  \cup Malformed(o)

RECURSIVE NoDesc(_)
NoDesc(cols) == [i \in DOMAIN cols |->
   LET b == JObj([k \in DOMAIN cols[i].o \ {"description"} |-> cols[i].o[k]])
   IN IF CType(b) = "RECORD" THEN [b EXCEPT !.o["fields"] = JArr(NoDesc(CFields(b)))] ELSE b]
RECURSIVE DescTexts(_)
\* the texts that the nodes of a schema ask for
DescTexts(v) ==
  CASE v.j = "o" -> (IF Accepted(v) THEN LET d == Description([d |-> TextOpt(v, "description"), t |-> TextOpt(v, "title")])
                                         IN IF d = EmptyFn THEN {} ELSE {d["description"].s} ELSE {})
                    \cup UNION {DescTexts(v.o[k]) : k \in DOMAIN v.o}
    [] v.j = "a" -> UNION {DescTexts(v.a[i]) : i \in DOMAIN v.a}
    [] OTHER -> {}
P_desc(o) ==
  (IF o.kind # "desc" THEN {}
   ELSE UNION {LET a == o.parts[1].calls[k]
                   b == o.parts[2].calls[k]
               IN IF a.out.r # b.out.r THEN {<<"a description changes the outcome", <<1, k>>, "">>}
                  ELSE IF ~(Good(a) /\ Good(b)) THEN {}
                  ELSE IF (IF a.t = "avro" THEN a.out.v = b.out.v ELSE NoDesc(a.out.v.a) = NoDesc(b.out.v.a))
                  THEN {} ELSE {<<"a description changes the type", <<1, k>>, "">>}
               : k \in DOMAIN o.parts[1].calls})
  \cup UNION {LET c == C(o, x) IN
        IF c.t = "avro" \/ ~Good(c) THEN {}
        ELSE LET texts == DescTexts(S(o, x))
             IN IF \A k \in CAll(c.out.v.a) : CDesc(k) = <<>> \/ CDesc(k)[1] \in texts THEN {}
                ELSE {<<"a description that nobody wrote", x, "">>} : x \in Calls(o)}
  \cup Conform(o, {"desc"}) \cup Malformed(o)

(* ======================= leaves, tuples, maps, lists, JSON ================ *)
P_leaf(o) == Agrees(o, {"leaf"}) \cup Conform(o, {"leaf"}) \cup Malformed(o)
OptionInert(o, opt, cond(_, _), tag) ==
  UNION {LET c == C(o, x) IN
         IF ~cond(S(o, x), c) THEN {}
         ELSE {<<tag, x, y>> : y \in Mate(o, x, LAMBDA d : SameBut(c, d, {opt}) /\ Outcome(d) # Outcome(c))}
         : x \in Calls(o)}
Shapes == {"kind", "columns", "null", "leaf", "outcome", "order"}
Building(o, kind) == Only(o, Agrees(o, Shapes) \cup Conform(o, Shapes), LAMBDA v, c : HasNode(v, kind))
P_tuple(o) ==
  OptionInert(o, "u", LAMBDA v, c : ~HasNode(v, "tuple"), "the tuple option matters without tuples")
  \cup Building(o, "tuple") \cup Malformed(o)
P_map(o) ==
  OptionInert(o, "w", LAMBDA v, c : c.t = "avro" \/ c.r # "drop", "maps without value matter")
  \cup Building(o, "map") \cup Malformed(o)
P_lists(o) == Building(o, "lists") \cup Malformed(o)
P_json(o) ==
  OptionInert(o, "x", LAMBDA v, c : c.t = "avro" \/ MetaRegex(v) # <<>>, "the JSON path matters where it must not")
  \cup UNION {LET c == C(o, x) IN
        IF c.t = "bq" /\ Good(c) /\ Eff(S(o, x), c).rx = <<>> /\ \E k \in CAll(c.out.v.a) : CType(k) = "JSON"
        THEN {<<"JSON column without a path", x, "">>} ELSE {} : x \in Calls(o)}
  \cup Only(o, Agrees(o, {"leaf", "columns"}) \cup Conform(o, {"leaf", "outcome", "columns"}),
            LAMBDA v, c : c.t = "bq" /\ Eff(v, c).rx # <<>>)
  \cup Malformed(o)
P_root(o) ==
  UNION {LET c == C(o, x) IN
     IF ~Good(c) THEN {}
     ELSE IF c.t = "avro"
     THEN IF AKind(c.out.v) = "record" /\ ARecName(c.out.v) # <<"root", "">> THEN {<<"the root record is not called root", x, "">>} ELSE {}
     ELSE IF c.out.v.a = <<>> THEN {<<"a table without columns", x, "">>} ELSE {} : x \in Calls(o)}
  \cup {f \in Agrees(o, {"columns", "kind", "null", "outcome"}) \cup Conform(o, {"columns", "kind", "outcome", "name", "null"})
         : f[3][1] = "outcome" \/ f[3][2] \in {"", "root", ".root"}}
  \cup Malformed(o)

(* ======================= composition ====================================== *)
\* path: <<"p", "[]", "{}", ..>> from the root to the part; <<>> if it is not there
RECURSIVE GetA(_, _)
GetA(a, path) ==
  IF path = <<>> THEN <<a>>
  ELSE LET h == path[1]
           k == AKind(a)
       IN IF h = "[]" THEN IF k = "array" THEN GetA(AItems(a), Tail(path)) ELSE <<>>
          ELSE IF h = "{}" THEN IF k = "map" THEN GetA(AValues(a), Tail(path)) ELSE <<>>
          ELSE IF k = "record" /\ h \in Range(AFieldNames(a)) THEN GetA(AField(a, h).o["type"], Tail(path)) ELSE <<>>
RECURSIVE GetB(_, _)
GetB(c, path) ==
  IF path = <<>> THEN <<c>>
  ELSE LET h == path[1]
           Down(x) == IF CType(c) = "RECORD" /\ x \in Range(NamesOf(CFields(c)))
                      THEN GetB(ColNamed(CFields(c), x), Tail(path)) ELSE <<>>
       IN IF h = "[]" THEN IF CMode(c) = "REPEATED" THEN GetB(c, Tail(path)) ELSE <<>>
          ELSE IF h = "{}" THEN Down("value") ELSE Down(h)
RECURSIVE Nameless(_)
Nameless(a) ==
  LET b == ABody(a)
      m == CASE AKind(a) = "array" -> AvroArray(Nameless(AItems(a)))
             [] AKind(a) = "map" -> AvroMap(Nameless(AValues(a)))
             [] AKind(a) = "record" ->
                  JObj(("type" :> JStr("record")) @@ ("fields" :> JArr([i \in DOMAIN AFieldSeq(a) |->
                     JObj([k \in DOMAIN AFieldSeq(a)[i].o |->
                        IF k = "type" THEN Nameless(AFieldSeq(a)[i].o[k]) ELSE AFieldSeq(a)[i].o[k]])])))
             [] OTHER -> b
  IN IF ANull(a) THEN JArr(<<a.a[1], m>>) ELSE m
PartOut(p, k) ==
  LET c == p.calls[k] IN
  IF ~Good(c) THEN <<>>
  ELSE IF c.t = "avro" THEN LET g == GetA(c.out.v, p.path) IN IF g = <<>> THEN <<>> ELSE <<Nameless(ABody(g[1]))>>
  ELSE LET g == GetB(JObj(("type" :> JStr("RECORD")) @@ ("mode" :> JStr("REQUIRED")) @@ ("fields" :> c.out.v)), p.path)
       IN IF g = <<>> THEN <<>> ELSE <<<<CType(g[1]), CFields(g[1])>>>>
P_compose(o) ==
  (IF o.kind # "embed" THEN {}
   ELSE UNION {UNION {IF o.parts[i].calls[k].out.r = o.parts[1].calls[k].out.r
                         /\ PartOut(o.parts[i], k) = PartOut(o.parts[1], k)
                      THEN {} ELSE {<<"the surroundings matter", <<i, k>>, "">>}
               : k \in DOMAIN o.parts[1].calls} : i \in 2..Len(o.parts)})
  \cup Malformed(o)
\* kind "extend": part 2 has one more property, o.added; everything else is as before.
\* The object stands at a path of the schema.  Of two properties that are mapped to the same
\* column only one is kept, so the added one is to have a column of its own, or none at all.
OwnColumn(v, q, nc) == q \notin DOMAIN v.o["properties"].o /\ \A x \in DOMAIN v.o["properties"].o : Column(x, nc) # Column(q, nc) \/ Column(q, nc) = <<>>
RECURSIVE SchemaAt(_, _)
SchemaAt(v, path) ==
  IF path = <<>> THEN v
  ELSE SchemaAt(CASE path[1] = "[]" -> v.o["items"] [] path[1] = "{}" -> v.o["additionalProperties"]
                  [] path[1] = "f0_" -> v.o["items"].a[1]
                  [] OTHER -> v.o["properties"].o[path[1]], Tail(path))
\* the fields of the object at a path of the output; <<>> if it is not there
FieldsAt(c, path) ==
  IF c.t = "avro"
  THEN LET g == GetA(c.out.v, path) IN IF g # <<>> /\ AKind(g[1]) = "record" THEN <<AFieldSeq(g[1])>> ELSE <<>>
  ELSE LET g == GetB(JObj(("type" :> JStr("RECORD")) @@ ("mode" :> JStr("REQUIRED")) @@ ("fields" :> c.out.v)),
                          IF path # <<>> /\ path[1] \in {"[]", "{}"} THEN <<"root">> \o path ELSE path)
       IN IF g # <<>> /\ CType(g[1]) = "RECORD" THEN <<CFields(g[1])>> ELSE <<>>
\* the output with the fields of the record at a path left out: what stands around them
RECURSIVE HoleA(_, _)
HoleA(a, path) ==
  LET b == ABody(a)
      Put1(k, x) == JObj((k :> x) @@ b.o)
      m == IF path = <<>> THEN Put1("fields", JArr(<<>>))
           ELSE CASE path[1] = "[]" -> Put1("items", HoleA(b.o["items"], Tail(path)))
                  [] path[1] = "{}" -> Put1("values", HoleA(b.o["values"], Tail(path)))
                  [] OTHER -> Put1("fields", JArr([i \in DOMAIN AFieldSeq(a) |->
                                LET f == AFieldSeq(a)[i]
                                IN IF f.o["name"].s = path[1] THEN JObj(("type" :> HoleA(f.o["type"], Tail(path))) @@ f.o) ELSE f]))
  IN IF ANull(a) THEN JArr(<<a.a[1], m>>) ELSE m
RECURSIVE HoleB(_, _)
HoleB(c, path) ==
  LET h == IF path = <<>> THEN "" ELSE IF path[1] = "{}" THEN "value" ELSE path[1]
  IN IF path = <<>> THEN JObj(("fields" :> JArr(<<>>)) @@ c.o)
     ELSE IF h = "[]" THEN HoleB(c, Tail(path))
     ELSE JObj(("fields" :> JArr([i \in DOMAIN CFields(c) |->
                 LET f == CFields(c)[i] IN IF "name" \in DOMAIN f.o /\ f.o["name"].s = h THEN HoleB(f, Tail(path)) ELSE f])) @@ c.o)
Around(c, path) ==
  IF c.t = "avro" THEN HoleA(c.out.v, path)
  ELSE HoleB(JObj(("type" :> JStr("RECORD")) @@ ("mode" :> JStr("REQUIRED")) @@ ("fields" :> c.out.v)),
             IF path # <<>> /\ path[1] \in {"[]", "{}"} THEN <<"root">> \o path ELSE path)
P_extend(o) ==
  (IF o.kind # "extend" THEN {}
   ELSE UNION {LET a == o.parts[1].calls[k]
                   b == o.parts[2].calls[k]
                   path == o.parts[1].path
                   col == Column(o.added, a.c)
                   fa == FieldsAt(a, path)
                   fb == FieldsAt(b, path)
               IN IF ~OwnColumn(SchemaAt(o.parts[1].schema, path), o.added, a.c) THEN {}
                  ELSE IF a.out.r # b.out.r THEN {<<"an added property changes the outcome", <<2, k>>, "">>}
                  ELSE IF ~(Good(a) /\ Good(b)) THEN {}
                  ELSE IF /\ fa # <<>> /\ fb # <<>>
                          /\ fa[1] = SelectSeq(fb[1], LAMBDA f : col = <<>> \/ f.o["name"].s # col[1])
                          /\ col # <<>> => \E i \in DOMAIN fb[1] : fb[1][i].o["name"].s = col[1]
                          /\ Around(a, path) = Around(b, path)
                       THEN {} ELSE {<<"an added property is not just added", <<2, k>>, "">>}
               : k \in DOMAIN o.parts[1].calls})
  \cup Malformed(o)

\* kind "required": part 2 lists other properties as required, part 3 lists more names that are no properties.
P_required(o) ==
  (IF o.kind # "required" THEN {}
   ELSE UNION {LET a == o.parts[1].calls[k]
                   b == o.parts[2].calls[k]
                   c == o.parts[3].calls[k]
               IN (IF a.out.r # b.out.r THEN {<<"required changes the outcome", <<2, k>>, "">>}
                   ELSE IF ~(Good(a) /\ Good(b)) \/ TLCEval(Erased(a)) = TLCEval(Erased(b)) THEN {}
                   ELSE {<<"required changes more than nullability", <<2, k>>, "">>})
                  \cup (IF Outcome(a) = Outcome(c) THEN {} ELSE {<<"a required name without a property matters", <<3, k>>, "">>})
               : k \in DOMAIN o.parts[1].calls})
  \cup Malformed(o)
\* kind "rename": part 2 calls the property o.from of the object at a path o.to.
P_rename(o) ==
  (IF o.kind # "rename" THEN {}
   ELSE UNION {LET a == o.parts[1].calls[k]
                   b == o.parts[2].calls[k]
                   path == o.parts[1].path
                   ps == SchemaAt(o.parts[1].schema, path)
                   rest == JObj(("properties" :> JObj([x \in DOMAIN ps.o["properties"].o \ {o.from} |-> ps.o["properties"].o[x]])))
                   p == Column(o.from, a.c)
                   q == Column(o.to, a.c)
                   fa == FieldsAt(a, path)
                   fb == FieldsAt(b, path)
                   Others(fs, n) == SelectSeq(fs, LAMBDA f : f.o["name"].s # n)
                   \* the field, without its name and the names inside it
                   This(fs, n) == LET f == SelectSeq(fs, LAMBDA x : x.o["name"].s = n)
                                  IN [i \in DOMAIN f |-> JObj([y \in DOMAIN f[i].o \ {"name"} |->
                                        IF y = "type" /\ a.t = "avro" THEN Nameless(f[i].o[y]) ELSE f[i].o[y]])]
               IN IF ~(OwnColumn(rest, o.from, a.c) /\ OwnColumn(rest, o.to, a.c)) \/ p = <<>> \/ q = <<>> THEN {}
                  ELSE IF a.out.r # b.out.r THEN {<<"a name changes the outcome", <<2, k>>, "">>}
                  ELSE IF ~(Good(a) /\ Good(b)) THEN {}
                  ELSE IF (fa = <<>>) # (fb = <<>>) THEN {<<"a name changes the object", <<2, k>>, "">>}
                  ELSE IF fa = <<>> THEN {}
                  ELSE (IF Around(a, path) = Around(b, path) THEN {} ELSE {<<"a name changes what is around the object", <<2, k>>, "">>})
                       \cup (IF Others(fa[1], p[1]) = Others(fb[1], q[1]) THEN {} ELSE {<<"a name changes the other properties", <<2, k>>, "">>})
                       \cup (IF This(fa[1], p[1]) = This(fb[1], q[1]) THEN {} ELSE {<<"a name changes the type of its property", <<2, k>>, "">>})
               : k \in DOMAIN o.parts[1].calls})
  \cup Malformed(o)

P_spelling(o) ==
  (IF o.kind = "same" THEN SameParts(o, "the spelling of a schema matters") ELSE {})
  \cup Malformed(o)

\* the places where n is ambiguous
RECURSIVE AmbiguousAt(_, _, _, _)
AmbiguousAt(n, t, path, rx) ==
  CASE n.k = "null" -> IF t = "bq" THEN {path} ELSE {}
    [] n.k = "atom" -> IF Ambiguous(n, t, path, rx) THEN {path} ELSE {}
    [] Hollow(n) -> {path}
    [] n.k = "object" -> UNION {AmbiguousAt(n.f[x], t, Sub(path, x), rx) : x \in DOMAIN n.f}
    [] n.k = "array" -> AmbiguousAt(n.xs[1], t, Sub(path, "list"), rx)
    [] n.k = "map" -> AmbiguousAt(n.xs[1], t, Sub(path, "value"), rx)
    [] n.k = "tuple" -> UNION {AmbiguousAt(n.xs[i], t, Sub(path, "f" \o NatText(i - 1) \o "_"), rx) : i \in DOMAIN n.xs}
\* a text has a path in it, and not only as a part of a longer one
InPath == WordChars \cup {"."}
MentionsAt(m, p, i) == /\ SubSeq(m, i, i + Len(p) - 1) = p
                       /\ i = 1 \/ At(m, i - 1) \notin InPath
                       /\ i + Len(p) > Len(m) \/ At(m, i + Len(p)) \notin InPath
Mentions(m, p) == Len(p) <= Len(m) /\ \E i \in 1..(Len(m) - Len(p) + 1) : MentionsAt(m, p, i)
P_blame(o) ==
  UNION {LET c == C(o, x)
             v == S(o, x)
         IN IF c.r # "panic" \/ c.out.r = "ok" \/ "m" \notin DOMAIN c.out \/ ~Sup(v, c) THEN {}
            ELSE LET places == AmbiguousAt(Means(v, c), c.t, "", Eff(v, c).rx)
                     m == c.out["m"]
                 IN IF Len(m) >= 200 \/ "" \in places \/ places = {} THEN {}
                    ELSE IF \E p \in places : Mentions(m, p) \/ Mentions(m, "root." \o p) THEN {}
                    ELSE {<<"the refusal does not name the place", x, m>>}
         : x \in Calls(o)}
  \cup Only(o, P_panic(o), LAMBDA v, c : c.r = "panic")

\* kind "widen": part 2 has more alternatives than part 1 in some places.  What was stored in the
\* output of part 1 can be stored in that of part 2: wider(a, b) on types and columns.
RECURSIVE AnyHollow(_)
AnyHollow(n) == \/ Hollow(n)
                \/ \E x \in DOMAIN n.f : AnyHollow(n.f[x])
                \/ \E i \in DOMAIN n.xs : AnyHollow(n.xs[i])
\* columns that some object requires without having them: they are required where they come up
RECURSIVE Unmet(_, _)
Unmet(v, nc) ==
  CASE v.j = "o" -> (IF Accepted(v) /\ Given(v, "required")
                     THEN ColumnsOf(Required(v), nc) \ (IF Given(v, "properties") THEN ColumnsOf(DOMAIN v.o["properties"].o, nc) ELSE {})
                     ELSE {}) \cup UNION {Unmet(v.o[k], nc) : k \in DOMAIN v.o}
    [] v.j = "a" -> UNION {Unmet(v.a[i], nc) : i \in DOMAIN v.a}
    [] OTHER -> {}
NewNeed(f, unmet) == f[1] = "null" /\ \E x \in unmet : EndsWith(f[2], "." \o x)
RECURSIVE NarrowA(_, _, _)
\* the places where b is not wider than a
NarrowA(a, b, p) ==
  LET ka == AKind(a)
      kb == AKind(b)
  IN (IF (ANull(a) \/ ka = "null") /\ ~(ANull(b) \/ kb = "null") THEN D("null", p) ELSE {})
     \cup CASE ka = "null" \/ kb = "string" -> {}
            [] ka # kb -> IF ka = "long" /\ kb = "double" THEN {} ELSE D("kind", p)
            [] ka = "array" -> IF AKind(AItems(a)) = "null" /\ AKind(AItems(b)) = "record" /\ AFieldNames(AItems(b)) = <<"list">>
                               THEN {}  \* it is the list in this record that admits null
                               ELSE NarrowA(AItems(a), AItems(b), p \o "[]")
            [] ka = "map" -> NarrowA(AValues(a), AValues(b), p \o "{}")
            [] ka = "record" ->
                 LET na == AFieldNames(a)
                     nb == AFieldNames(b)
                 IN (IF ARecName(a) # ARecName(b) THEN D("name", p) ELSE {})
                    \cup (IF na # SelectSeq(nb, LAMBDA x : x \in Range(na)) THEN D("columns", p) ELSE {})
                    \cup UNION {IF x \in Range(na) THEN NarrowA(AField(a, x).o["type"], AField(b, x).o["type"], p \o "." \o x)
                                ELSE IF ANull(AField(b, x).o["type"]) \/ AKind(AField(b, x).o["type"]) = "null" THEN {}
                                ELSE D("null", p \o "." \o x) : x \in Range(nb)}
            [] OTHER -> {}
RECURSIVE NarrowCols(_, _, _, _)
RECURSIVE NarrowB(_, _, _, _)
\* nulls: some STRING columns of a may stand for a bare null
NarrowB(a, b, nulls, p) ==
  LET free == nulls /\ CType(a) = "STRING"
      any == CType(b) = "STRING"
  IN (CASE CMode(a) = "NULLABLE" -> IF CMode(b) = "NULLABLE" \/ (free /\ CMode(b) = "REPEATED") THEN {} ELSE D("null", p)
        [] CMode(a) = "REQUIRED" -> IF CMode(b) \in {"REQUIRED", "NULLABLE"} THEN {} ELSE D("mode", p)
        [] OTHER -> IF CMode(b) = "REPEATED" \/ any THEN {} ELSE D("mode", p))
     \cup (IF any \/ free THEN {}
           ELSE IF CType(a) # CType(b) THEN IF CType(a) = "INT64" /\ CType(b) = "FLOAT64" THEN {} ELSE D("kind", p)
           ELSE IF CType(a) = "RECORD" THEN NarrowCols(CFields(a), CFields(b), nulls, p) ELSE {})
NarrowCols(ca, cb, nulls, p) ==
  LET na == NamesOf(ca)
      nb == NamesOf(cb)
  IN (IF na # SelectSeq(nb, LAMBDA x : x \in Range(na)) THEN D("columns", p) ELSE {})
     \cup UNION {IF x \in Range(na) THEN NarrowB(ColNamed(ca, x), ColNamed(cb, x), nulls, p \o "." \o x)
                 ELSE IF CMode(ColNamed(cb, x)) # "REQUIRED" THEN {} ELSE D("null", p \o "." \o x) : x \in Range(nb)}
P_widen(o) ==
  (IF o.kind # "widen" THEN {}
   ELSE UNION {LET a == o.parts[1].calls[k]
                   b == o.parts[2].calls[k]
                   v == o.parts[1].schema
                   w == o.parts[2].schema
               IN IF ~(Sup(v, a) /\ Sup(w, b)) THEN {}
                  ELSE IF a.out.r # b.out.r THEN {<<"an alternative changes the outcome", <<2, k>>, "">>}
                  ELSE IF ~(Good(a) /\ Good(b)) THEN {}
                  ELSE LET n == Means(v, a)
                           m == Means(w, b)
                           ca == a.out.v.a
                           cb == b.out.v.a
                       IN IF AnyHollow(n) THEN {}
                          ELSE LET unmet == Unmet(v, a.c) IN F("an alternative takes something away", <<2, k>>,
                            {f \in IF a.t = "avro" THEN NarrowA(a.out.v, b.out.v, "")
                            ELSE IF IsRecord(n) /\ IsRecord(m) THEN NarrowCols(ca, cb, HasNull(n), "")
                            ELSE IF n.k = "null" THEN {}
                            ELSE IF NamesOf(cb) # <<"root">> THEN D("columns", "")
                            ELSE IF IsRecord(n) THEN IF CType(cb[1]) = "STRING" THEN {} ELSE D("kind", "")
                            ELSE IF NamesOf(ca) # <<"root">> THEN D("columns", "")
                            ELSE NarrowB(ca[1], cb[1], HasNull(n), "root") : ~NewNeed(f, unmet)})
               : k \in DOMAIN o.parts[1].calls})
  \cup Malformed(o)

Fails(p, o) ==
  CASE p = "C01" -> P_avro_sound(o)
    [] p = "C02" -> P_bq_sound(o)
    [] p = "C03" -> P_avro_well(o)
    [] p = "C04" -> P_bq_well(o)
    [] p = "C05" -> P_targets(o)
    [] p = "C07" -> P_cast_total(o)
    [] p = "C08" -> P_panic(o)
    [] p = "C09" -> P_drop(o)
    [] p = "C10" -> P_nullability(o)
    [] p = "C11" -> P_force(o)
    [] p = "C12" -> P_names(o)
    [] p = "C13" -> P_normalize(o)
    [] p = "C15" -> P_union(o)
    [] p = "C16" -> P_leaf(o)
    [] p = "C17" -> P_tuple(o)
    [] p = "C18" -> P_map(o)
    [] p = "C19" -> P_json(o)
    [] p = "C20" -> P_desc(o)
    [] p = "C21" -> P_inert(o)
    [] p = "C23" -> P_compose(o)
    [] p = "C24" -> P_lists(o)
    [] p = "C25" -> P_extend(o)
    [] p = "C26" -> P_root(o)
    [] p = "C28" -> P_required(o)
    [] p = "C29" -> P_rename(o)
    [] p = "C30" -> P_spelling(o)
    [] p = "C31" -> P_blame(o)
    [] p = "C32" -> P_widen(o)
=============================================================================
