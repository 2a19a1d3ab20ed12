-------------------------------- MODULE Emit --------------------------------
(***************************************************************************)
(* Trees -> Avro and BigQuery schemas (src/avro.rs, src/bigquery.rs), with *)
(* the resolution of under-specified and incompatible parts.  A result is  *)
(*   [r |-> "ok", v |-> ..]   the translated part                          *)
(*   [r |-> "drop"]           left out (resolve method drop)               *)
(*   [r |-> "fail"]           the conversion is given up (panic)           *)
(***************************************************************************)
EXTENDS Ast, Regexp

Ok(x)   == [r |-> "ok", v |-> x]
Dropped == [r |-> "drop"]
Failed  == [r |-> "fail"]

\* An under-specified or incompatible part: what stands in for it.
Resolve(ctx, x) == CASE ctx.r = "cast" -> Ok(x) [] ctx.r = "drop" -> Dropped [] ctx.r = "panic" -> Failed

AnyFail(s) == \E i \in DOMAIN s : s[i].r = "fail"
AnyDrop(s) == \E i \in DOMAIN s : s[i].r = "drop"

(* ------------------------------- Avro ----------------------------------- *)
AvroPrim(x) == JObj("type" :> JStr(x))
AvroAtom == [boolean |-> "boolean", integer |-> "long", number |-> "double",
             string |-> "string", datetime |-> "string", bytes |-> "bytes"]
AvroField(name, ty, nullable) ==
  JObj(("name" :> JStr(name)) @@ ("type" :> ty) @@
       (IF nullable THEN "default" :> JNull ELSE EmptyFn))
AvroRecord(name, ns, fields) ==
  JObj(("type" :> JStr("record")) @@ ("name" :> JStr(name)) @@ ("fields" :> JArr(fields)) @@
       (IF ns = "" THEN EmptyFn ELSE "namespace" :> JStr(ns)))
AvroArray(x) == JObj(("type" :> JStr("array")) @@ ("items" :> x))
AvroMap(x)   == JObj(("type" :> JStr("map")) @@ ("values" :> x))

RECURSIVE Avro(_, _)
AvroBody(n, ctx) ==
  CASE n.k = "null" -> Ok(AvroPrim("null"))
    [] n.k = "atom" -> IF n.a = "json" THEN Resolve(ctx, AvroPrim("string"))
                       ELSE Ok(AvroPrim(AvroAtom[n.a]))
    [] n.k = "object" ->
         LET all == SortTexts(DOMAIN n.f)
             res == TLCEval([c \in DOMAIN n.f |-> Avro(n.f[c], ctx)])
             kept == SelectSeq(all, LAMBDA c : res[c].r = "ok")
         IN IF AnyFail(res) THEN Failed
            ELSE IF kept = <<>> THEN Resolve(ctx, AvroPrim("string"))
            ELSE Ok(AvroRecord(n.nm, n.ns,
                   [i \in DOMAIN kept |-> AvroField(kept[i], res[kept[i]].v, n.f[kept[i]].nul)]))
    [] n.k = "tuple" /\ n.items = <<>> -> Resolve(ctx, AvroPrim("string"))
    [] n.k = "tuple" ->
         LET res == TLCEval([i \in DOMAIN n.items |-> Avro(n.items[i], ctx)])
         IN IF AnyFail(res) THEN Failed ELSE IF AnyDrop(res) THEN Dropped
            ELSE Ok(AvroRecord(n.nm, n.ns, [i \in DOMAIN res |->
                   AvroField("f" \o NatText(i - 1) \o "_", res[i].v, n.items[i].nul)]))
    [] n.k = "array" ->
         LET res == Avro(n.items[1], ctx)
         IN IF res.r # "ok" THEN res
            ELSE IF n.items[1].k = "array"
                 THEN Ok(AvroArray(AvroRecord(n.nm, n.ns, <<AvroField("list", res.v, FALSE)>>)))
                 ELSE Ok(AvroArray(res.v))
    [] n.k = "map" -> LET res == Avro(n.items[1], ctx)
                      IN IF res.r # "ok" THEN res ELSE Ok(AvroMap(res.v))
    [] OTHER -> Resolve(ctx, AvroPrim("string"))
Avro(n, ctx) ==
  LET res == AvroBody(n, ctx)
  IN IF res.r = "ok" /\ n.nul /\ n.k # "null" THEN Ok(JArr(<<AvroPrim("null"), res.v>>)) ELSE res

(* ------------------------------- BigQuery ------------------------------- *)
BqAtom == [boolean |-> "BOOL", integer |-> "INT64", number |-> "FLOAT64",
           string |-> "STRING", datetime |-> "TIMESTAMP", bytes |-> "BYTES"]
BqType(x) == "type" :> JStr(x)
BqRecord(fields) == ("type" :> JStr("RECORD")) @@ ("fields" :> JArr(fields))

MaxDescription == 1024
Description(n) ==
  LET text == IF n.t # <<>> /\ n.d # <<>> THEN <<n.t[1] \o " - " \o n.d[1]>>
              ELSE IF n.t # <<>> THEN n.t ELSE n.d
  IN IF text = <<>> THEN EmptyFn
     ELSE "description" :> JStr(IF Len(text[1]) > MaxDescription
                                THEN SubSeq(text[1], 1, MaxDescription) ELSE text[1])
Mode(n) == IF n.k \in {"array", "map"} THEN "REPEATED"
           ELSE IF n.k = "null" \/ n.nul THEN "NULLABLE" ELSE "REQUIRED"

FullName(n) == LET nm == IF n.nm = "" THEN "__unknown__" ELSE n.nm
               IN IF n.ns = "" THEN nm ELSE n.ns \o "." \o nm
IsJsonPath(n, ctx) == ctx.rx # <<>> /\ Match(ctx.rx[1], FullName(n))

\* Columns are ordered by name.
Sorted(cols) == LET all == SortTexts(DOMAIN cols) IN [i \in DOMAIN all |-> JObj(cols[all[i]])]

RECURSIVE Bq(_, _)
\* type and fields of a column
BqBody(n, ctx) ==
  CASE n.k = "atom" -> IF n.a # "json" THEN Ok(BqType(BqAtom[n.a]))
                       ELSE IF IsJsonPath(n, ctx) THEN Ok(BqType("JSON"))
                       ELSE Resolve(ctx, BqType("STRING"))
    [] n.k = "object" ->
         LET res == TLCEval([c \in DOMAIN n.f |-> Bq(n.f[c], ctx)])
             kept == {c \in DOMAIN n.f : res[c].r = "ok"}
         IN IF AnyFail(res) THEN Failed
            ELSE IF kept = {} THEN Resolve(ctx, BqType("STRING"))
            ELSE Ok(BqRecord(Sorted([c \in kept |-> res[c].v])))
    [] n.k = "tuple" /\ n.items = <<>> -> Resolve(ctx, BqType("STRING"))
    [] n.k = "tuple" ->
         LET res == TLCEval([i \in DOMAIN n.items |-> Bq(n.items[i], ctx)])
             name == [i \in DOMAIN n.items |-> "f" \o NatText(i - 1) \o "_"]
             idx == [c \in {name[i] : i \in DOMAIN name} |-> CHOOSE i \in DOMAIN name : name[i] = c]
         IN IF AnyFail(res) THEN Failed ELSE IF AnyDrop(res) THEN Dropped
            ELSE Ok(BqRecord(Sorted([c \in DOMAIN idx |-> ("name" :> JStr(c)) @@ res[idx[c]].v])))
    [] n.k = "array" ->
         LET res == Bq(n.items[1], ctx)
         IN IF res.r # "ok" THEN res
            ELSE IF n.items[1].k = "array" THEN Ok(BqRecord(<<JObj(res.v)>>))
            ELSE Ok([x \in DOMAIN res.v \cap {"type", "fields"} |-> res.v[x]])
    [] n.k = "map" ->
         LET key == ("name" :> JStr("key")) @@ BqType("STRING")
                      @@ ("mode" :> JStr(IF ctx.fn THEN "NULLABLE" ELSE "REQUIRED"))
             res == Bq(n.items[1], ctx)
         IN IF res.r = "fail" THEN Failed
            ELSE IF res.r = "ok" THEN Ok(BqRecord(<<JObj(key), JObj(res.v)>>))
            ELSE IF ctx.mw THEN Ok(BqRecord(<<JObj(key)>>)) ELSE Dropped
    [] OTHER -> Resolve(ctx, BqType("STRING"))
\* a column: name, type, fields, mode, description
Bq(n, ctx) ==
  LET res == BqBody(n, ctx)
  IN IF res.r # "ok" THEN res
     ELSE Ok(TLCEval(res.v @@ ("mode" :> JStr(Mode(n))) @@ Description(n)
               @@ (IF n.nm = "" THEN EmptyFn ELSE "name" :> JStr(n.nm))))

\* The root is a list of columns: those of a record, or a single column "root".
BqRoot(n, ctx) ==
  LET res == Bq(n, ctx)
  IN IF res.r # "ok" THEN Failed
     ELSE IF res.v["type"].s = "RECORD" /\ res.v["mode"].s # "REPEATED" THEN Ok(res.v["fields"])
     ELSE Ok(JArr(<<JObj(("name" :> JStr("root")) @@ res.v)>>))
AvroRoot(n, ctx) == LET res == Avro(n, ctx) IN IF res.r = "drop" THEN Failed ELSE res
=============================================================================
