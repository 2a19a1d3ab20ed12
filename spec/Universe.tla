------------------------------ MODULE Universe ------------------------------
(***************************************************************************)
(* Bounded universes of schemas, one for each property: every schema that  *)
(* can be made from a pool of parts and a set of contexts, under a grid of *)
(* options.  They are explored exhaustively on the specification           *)
(* (Machine.tla) and replayed, all of them, into the real program.         *)
(* deep chooses the larger of two bounds.                                  *)
(***************************************************************************)
EXTENDS Pipeline, Spellings

(* --- schemas --- *)
Sch(f) == JObj(f)
TypeIs(t) == "type" :> JStr(t)
Ty(t) == Sch(TypeIs(t))
Types(ts) == Sch("type" :> JArr([i \in DOMAIN ts |-> JStr(ts[i])]))
Fmt(f) == Sch(TypeIs("string") @@ ("format" :> JStr(f)))
Empty == Sch(EmptyFn)
Sizes == {JInt(0), JInt(1), JInt(128), JInt(300), JInt(65535), JInt(65536), JInt(100000), JFloat("4294967296"), JFloat("18446744073709551615")}
Texts(ss) == JArr([i \in DOMAIN ss |-> JStr(ss[i])])
ObjOf(ps, req) == Sch(TypeIs("object") @@ ("properties" :> JObj(ps)) @@ ("required" :> Texts(req)))
ObjAny(ps) == Sch(TypeIs("object") @@ ("properties" :> JObj(ps)))
ArrOf(x) == Sch(TypeIs("array") @@ ("items" :> x))
MapOf(x) == Sch(TypeIs("object") @@ ("additionalProperties" :> x))
PatOf(ps) == Sch(TypeIs("object") @@ ("patternProperties" :> JObj(ps)))
OneOf(xs) == Sch("oneOf" :> JArr(xs))
\* min, max: <<n>> or <<>>; addl: <<schema or boolean>> or <<>>
TupOf(xs, min, max, addl) ==
  Sch(TypeIs("array") @@ ("items" :> JArr(xs))
      @@ (IF min = <<>> THEN EmptyFn ELSE "minItems" :> JInt(min[1]))
      @@ (IF max = <<>> THEN EmptyFn ELSE "maxItems" :> JInt(max[1]))
      @@ (IF addl = <<>> THEN EmptyFn ELSE "additionalItems" :> addl[1]))
With(v, k, x) == JObj((k :> x) @@ v.o)

Int == Ty("integer")
Str == Ty("string")
Null == Ty("null")
Atoms == {Int, Ty("number"), Str, Ty("boolean"), Fmt("date-time"), Fmt("bytes")}
Basic == {Int, Str, Null, Empty}
Pool == Atoms \cup {Null, Empty,
   Types(<<"string", "null">>), Types(<<"null", "integer">>), Types(<<"integer", "number">>),
   ObjOf("a" :> Int, <<"a">>), ObjOf("a" :> Ty("number"), <<>>), ObjOf(("a" :> Int) @@ ("b" :> Str), <<"b">>),
   ObjAny("a" :> Empty), ObjAny(EmptyFn),
   ArrOf(Int), ArrOf(Types(<<"string", "null">>)), ArrOf(ArrOf(Int)), ArrOf(ObjOf("a" :> Int, <<"a">>)),
   MapOf(Int), MapOf(Ty("number")), MapOf(Empty),
   TupOf(<<Int, Str>>, <<1>>, <<2>>, <<>>),
   OneOf(<<Int, Null>>), OneOf(<<Int, Str>>), OneOf(<<Int, OneOf(<<Null, Ty("number")>>)>>)}
Lesser == {Int, Str, Null, Empty, Fmt("date-time"), Types(<<"null", "integer">>), ObjOf("a" :> Int, <<"a">>), ArrOf(Int),
           MapOf(Ty("number")), TupOf(<<Int, Str>>, <<1>>, <<2>>, <<>>), OneOf(<<Int, Str>>)}

(* --- contexts: where a schema can stand --- *)
Zz == "zz" :> Int
InReq(x) == ObjOf(("p" :> x) @@ Zz, <<"p">>)
InOpt(x) == ObjOf(("p" :> x) @@ Zz, <<"zz">>)
InDeep(x) == ObjAny(("o" :> ObjOf(("p" :> x) @@ Zz, <<"p", "q">>)) @@ Zz)
InTup(x) == InReq(TupOf(<<x, Int>>, <<>>, <<>>, <<JBool(FALSE)>>))
InTupOpt(x) == InReq(TupOf(<<Int, x>>, <<1>>, <<>>, <<JBool(FALSE)>>))
InOne(x) == InReq(OneOf(<<x, Null>>))
InPat(x) == InReq(PatOf(("^a" :> x) @@ ("^b" :> x)))
InType(x) == IF Has(x, "type") /\ x.o["type"].j = "s" /\ x.o["type"].s # "null"
             THEN InReq(With(x, "type", JArr(<<x.o["type"], JStr("null")>>))) ELSE InReq(OneOf(<<Null, x, Null>>))
Contexts(x) == {x, InReq(x), InOpt(x), InDeep(x), InReq(ArrOf(x)), InReq(MapOf(x)), InTup(x), InTupOpt(x), InOne(x),
                InPat(x), InType(x), ArrOf(x), MapOf(x)}
FewContexts(x) == {x, InReq(x), InOpt(x), InReq(ArrOf(x)), InReq(MapOf(x)), InTupOpt(x)}
Pairs(S) == {OneOf(<<a, b>>) : a, b \in S}

(* --- options --- *)
Opts(t, r, c, n, u, w, x) == [t |-> t, r |-> r, c |-> c, n |-> n, u |-> u, w |-> w, x |-> x]
Targets == {"avro", "bq"}
Methods == {"cast", "drop", "panic"}
Grid(ts, rs, cs, ns, us, ws, xs) ==
  SeqOfSet({Opts(t, r, c, n, u, w, x) : t \in ts, r \in rs, c \in cs, n \in ns, u \in us, w \in ws, x \in xs})
No == {FALSE}
NoRx == {<<>>}

(* --- cases --- *)
Part(v, calls) == [tagged |-> v, calls |-> calls]
Case1(v, calls) == [kind |-> "plain", parts |-> <<Part(v, calls)>>]
Plain(S, calls) == {Case1(v, calls) : v \in S}
Case(kind, vs, calls) == [kind |-> kind, parts |-> [i \in DOMAIN vs |-> Part(vs[i], calls)]]

Everywhere(deep) == UNION {Contexts(x) : x \in Pool} \cup
                    UNION {IF deep THEN Contexts(x) ELSE {InReq(x)} : x \in Pairs(IF deep THEN Pool ELSE Lesser)}

\* names that are legal, need repair, are hopeless, or collide
NamePool == {"a", "A", "a-b", "a.b", "a_b", "aB", "AB", "1a", "_1a", "-", "_", "", ".", "$a", "a b", "a1B", "HTTPServer",
             "fooBar", "foo_bar", "FooBar2", "key", "f0_", "list", "64bit", "x-Y.z", "root", "a--b"}
Named(n1, n2, r) == ObjOf((n1 :> Int) @@ (n2 :> Str) @@ ("z" :> ObjOf(n1 :> Ty("boolean"), <<n2>>)), r)
\* texts around the longest description, made by doubling
RECURSIVE Long(_, _)
Long(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE Long(s \o s, n)
DescTextsAround == {"", "d", Long("ab ", 1020), Long("ab ", 1021), Long("ab ", 1024), Long("ab ", 1025), Long("xyz", 2100)}
Describe(v, d, t) == JObj((IF d = <<>> THEN EmptyFn ELSE "description" :> JStr(d[1]))
                       @@ (IF t = <<>> THEN EmptyFn ELSE "title" :> JStr(t[1])) @@ v.o)
SomeDescs == {<<>>, <<"">>, <<"some text">>, <<Long("ab ", 1020)>>, <<Long("ab ", 1024)>>, <<Long("ab ", 1025)>>}

\* keywords without meaning, or with a meaning only for other types
InertKeywords(v) ==
  LET t == IF Has(v, "type") /\ v.o["type"].j = "s" THEN v.o["type"].s ELSE "object"
      obj == t = "object" \/ ~Has(v, "type")
  IN {[k |-> "default", x |-> JNull], [k |-> "enum", x |-> JArr(<<JInt(1)>>)], [k |-> "minimum", x |-> JInt(3)],
      [k |-> "nullable", x |-> JBool(TRUE)], [k |-> "name", x |-> JStr("n")], [k |-> "namespace", x |-> JStr("n")],
      [k |-> "is_root", x |-> JBool(TRUE)], [k |-> "anyOf", x |-> JArr(<<Null>>)], [k |-> "const", x |-> JInt(1)],
      [k |-> "allOf", x |-> JArr(<<ObjAny("zz" :> Null)>>)], [k |-> "definitions", x |-> JObj("a" :> JInt(1))],
      [k |-> "mozPipelineMetadata", x |-> JObj("bq_table" :> JStr("t"))], [k |-> "$id", x |-> JStr("i")],
      [k |-> "minLength", x |-> JStr("none")], [k |-> "mode", x |-> JStr("REPEATED")], [k |-> "extra", x |-> ObjAny("a" :> Int)]}
     \cup (IF ~obj /\ t # "object" /\ Has(v, "type") /\ v.o["type"].j = "s"
           THEN {[k |-> "properties", x |-> JObj("a" :> Int)], [k |-> "required", x |-> Texts(<<"a">>)],
                 [k |-> "additionalProperties", x |-> Int], [k |-> "oneOf", x |-> JArr(<<Int, Null>>)]} ELSE {})
     \cup (IF t # "array" /\ (~Has(v, "type") \/ v.o["type"].j = "s")
           THEN {[k |-> "items", x |-> Int], [k |-> "minItems", x |-> JInt(1)], [k |-> "maxItems", x |-> JInt(0)]} ELSE {})
     \cup (IF Has(v, "items") /\ IsObj(v.o["items"])
           THEN {[k |-> q, x |-> x] : q \in {"minItems", "maxItems"}, x \in Sizes} ELSE {})
     \cup (IF t # "string" THEN {[k |-> "format", x |-> JStr("date-time")]} ELSE {[k |-> "format", x |-> JStr("email")]})
     \cup (IF t = "object" /\ Has(v, "properties")
           THEN {[k |-> "additionalProperties", x |-> Int], [k |-> "patternProperties", x |-> JObj("^a" :> Null)],
                 [k |-> "additionalProperties", x |-> JBool(FALSE)], [k |-> "oneOf", x |-> JArr(<<Int, Null>>)]} ELSE {})
Littered(v) == {With(v, e.k, e.x) : e \in {f \in InertKeywords(v) : ~Has(v, f.k)}}

\* arrays to a depth, each level nullable or not
RECURSIVE Nested(_, _)
Nested(S, d) == IF d = 0 THEN S
                ELSE LET below == Nested(S, d - 1) IN {ArrOf(x) : x \in below} \cup {OneOf(<<ArrOf(x), Null>>) : x \in below}
\* tuples without items, and sizes that nothing has
Sized == {ArrOf(x) : x \in {TupOf(<<>>, <<>>, <<0>>, <<>>), TupOf(<<>>, <<>>, <<>>, <<JBool(FALSE)>>), TupOf(<<>>, <<2>>, <<2>>, <<Int>>)}}
         \cup {InReq(TupOf(<<>>, <<>>, <<0>>, <<>>)), TupOf(<<>>, <<1>>, <<0>>, <<>>), MapOf(TupOf(<<>>, <<>>, <<>>, <<JBool(FALSE)>>))}
         \cup UNION {{InReq(With(ArrOf(Int), q, x)), InOpt(With(Str, q, x)), InOpt(With(ObjAny("a" :> Int), q, x)),
                       InReq(With(TupOf(<<Int, Null>>, <<>>, <<>>, <<JBool(FALSE)>>), q, x))} : q \in {"minItems", "maxItems"}, x \in Sizes}
         \cup {InReq(With(TupOf(<<Int, Str>>, <<>>, <<2>>, <<>>), "minItems", x)) : x \in Sizes}

TupleSet(deep) ==
  LET its == IF deep THEN Lesser ELSE {Int, Null, Types(<<"null", "integer">>), ObjOf("a" :> Int, <<"a">>), OneOf(<<Int, Str>>)}
      items == {<<a>> : a \in its} \cup {<<a, b>> : a \in its, b \in {Int, Types(<<"null", "integer">>)}}
               \cup {<<a, Int, Str>> : a \in its}
  IN Sized \cup {TupOf(xs, min, max, addl) : xs \in items, min \in {<<>>, <<0>>, <<1>>, <<2>>, <<4>>},
        max \in {<<>>, <<1>>, <<2>>, <<3>>}, addl \in {<<>>, <<JBool(FALSE)>>, <<Str>>} \cup (IF deep THEN {<<JBool(TRUE)>>} ELSE {})}

Regexes == {"", ".*", "p", "^p$", "p\\.list", "p.list|zz", "value", "p\\.value$", "x|p", "^o\\.p", "[^.]+\\.p$", "__unknown__", "root", "p\\.f0_", "a"}
Bits(S) == S \X S
EmbedPaths == {<<"p">>, <<"o", "p">>, <<"p", "[]", "q">>, <<"p", "{}", "q">>, <<"o", "p", "q">>, <<"p", "f0_">>, <<"p", "[]", "f0_">>}
RECURSIVE Wrap(_, _, _)
Wrap(path, i, x) ==
  IF i > Len(path) THEN x
  ELSE LET y == Wrap(path, i + 1, x) IN
       CASE path[i] = "[]" -> ArrOf(y) [] path[i] = "{}" -> MapOf(y)
              [] path[i] = "f0_" -> TupOf(<<y, Int>>, <<>>, <<2>>, <<>>)
         [] OTHER -> ObjOf((path[i] :> y) @@ ("zz" :> Int), <<path[i]>>)
PartAt(path, v, calls) == [tagged |-> Wrap(path, 1, v), path |-> path, calls |-> calls]

TwoOpts == Grid(Targets, {"cast"}, No, No, {TRUE}, No, NoRx)
\* schemas whose spellings are varied (C30); Dump makes the cases
SpellCalls(deep) == Grid(Targets, {"cast"}, No, No, {TRUE, FALSE}, No, NoRx) \o Grid({"bq"}, {"drop"}, No, No, {TRUE}, No, {<<>>, <<"p|zz|root|value">>})
                    \o (IF deep THEN Grid({"avro"}, {"drop", "panic"}, BOOLEAN, No, {TRUE}, No, NoRx) ELSE <<>>)
SpellPool(deep) ==
  LET more == UNION {{TupOf(xs, min, <<2>>, <<>>), TupOf(xs, min, <<>>, <<JBool(FALSE)>>), TupOf(xs, min, <<4>>, <<Types(<<"null", "integer">>)>>)} :
                     xs \in {<<Int, Str>>, <<Null, Int>>}, min \in {<<>>, <<0>>, <<1>>, <<2>>, <<3>>}}
              \cup {PatOf(("^a" :> a) @@ ("^b" :> b)) : a, b \in Lesser} \cup {With(MapOf(a), "patternProperties", JObj("^a" :> b)) : a, b \in Lesser}
              \cup Pairs(IF deep THEN Pool ELSE Lesser) \cup {OneOf(<<a, b, c>>) : a, b, c \in {Int, Null, Empty, ObjOf("a" :> Int, <<"a">>), MapOf(Ty("number"))}}
              \cup {Describe(x, <<"d">>, <<"t">>) : x \in Pool}
              \cup {MapOf(Describe(Int, <<"d">>, <<>>)), Sch(("type" :> JArr(<<JStr("string"), JStr("null")>>)) @@ ("format" :> JStr("date-time")))}
  IN Pool \cup more
U(p, deep) ==
  LET every == Everywhere(deep)
      B == BOOLEAN
      some == IF deep THEN Pool ELSE Lesser
  IN
  CASE p = "C01" -> Plain(every, Grid({"avro"}, {"cast", "drop"}, No, IF deep THEN B ELSE No, B, No, NoRx))
    [] p = "C02" -> Plain(every, Grid({"bq"}, {"cast", "drop"}, No, IF deep THEN B ELSE No, B, No, NoRx))
    [] p = "C03" -> Plain(UNION {Contexts(x) : x \in some}, Grid({"avro"}, {"cast"}, No, B, {TRUE}, No, NoRx))
                    \cup {Case1(Named(a, b, <<a>>), Grid({"avro"}, {"cast"}, B, No, {TRUE}, No, NoRx)) : a, b \in NamePool}
    [] p = "C04" -> Plain(UNION {Contexts(x) : x \in some}, Grid({"bq"}, {"cast"}, No, B, {TRUE}, No, NoRx))
                    \cup {Case1(Named(a, b, <<a>>), Grid({"bq"}, {"cast"}, B, No, {TRUE}, No, NoRx)) : a, b \in NamePool}
                    \cup {Case1(InReq(Describe(Int, <<d>>, <<t>>)), Grid({"bq"}, {"cast"}, No, No, {TRUE}, No, NoRx)) : d, t \in DescTextsAround}
    [] p = "C05" -> Plain(every \cup Sized, Grid(Targets, {"cast", "drop"}, No, IF deep THEN B ELSE No, {TRUE}, No, NoRx))
    [] p \in {"C07", "C08", "C09"} -> Plain(every \cup Sized, Grid(Targets, Methods, No, No, IF deep THEN B ELSE {TRUE}, No, NoRx))
    [] p = "C10" -> Plain(every, Grid(Targets, {"cast"}, No, B, {TRUE}, No, NoRx))
    [] p = "C11" -> Plain(every, Grid(Targets, {"cast"} \cup (IF deep THEN {"drop"} ELSE {}), No, B, {TRUE}, No, NoRx))
    [] p \in {"C12", "C13"} ->
         {Case1(Named(a, b, r), Grid(Targets, {"cast"}, B, No, No, No, NoRx)) : a, b \in NamePool, r \in {<<"a", "a-b", "fooBar">>}}
         \cup (IF deep THEN {Case1(Named(a, b, r), Grid(Targets, {"cast"}, B, No, No, No, NoRx)) :
                              a, b \in NamePool, r \in {<<x>> : x \in NamePool}} ELSE {})
    [] p = "C15" ->
         LET calls == IF deep THEN Grid(Targets, {"cast", "drop"}, No, No, B, No, NoRx) ELSE Grid(Targets, {"cast"}, No, No, {TRUE}, No, NoRx)
             small == IF deep THEN Pool ELSE {Int, Str, Ty("number"), Null, Types(<<"null", "integer">>), Empty, ObjOf("a" :> Int, <<"a">>),
                       ObjOf(("a" :> Int) @@ ("b" :> Str), <<"b">>), ArrOf(Int), MapOf(Int)}
         IN {Case("same", <<InReq(OneOf(<<a, b>>)), InReq(OneOf(<<b, a>>))>>, calls) : a, b \in Pool}
            \cup {Case("same", <<InReq(OneOf(<<a, b, c>>)), InReq(OneOf(<<c, b, a>>)), InReq(OneOf(<<b, c, a>>))>>, calls) :
                    a, b, c \in IF deep THEN Lesser ELSE small}
            \cup {Case("nullable", <<InReq(OneOf(<<a, b>>)), InReq(OneOf(<<a, Null, b>>))>>, calls) : a, b \in some}
            \cup {Case("nullable", <<InReq(OneOf(<<a>>)), InReq(OneOf(<<Null, a>>))>>, calls) : a \in Pool}
    [] p = "C16" -> Plain(UNION {Contexts(x) : x \in Atoms \cup {Ty("date-time"), Ty("bytes"), Fmt("email"), Null,
                             Sch(TypeIs("integer") @@ ("format" :> JStr("bytes"))),
                             Sch(("type" :> JArr(<<JStr("string"), JStr("null")>>)) @@ ("format" :> JStr("date-time")))}}
                          \cup UNION {FewContexts(OneOf(<<a, b>>)) : a, b \in Atoms},
                          Grid(Targets, Methods, No, B, {TRUE}, No, NoRx))
    [] p = "C17" -> Plain({InReq(x) : x \in TupleSet(deep)} \cup (IF deep THEN TupleSet(FALSE) ELSE {}),
                          Grid(Targets, IF deep THEN Methods ELSE {"cast"}, No, No, B, No, NoRx))
    [] p = "C18" -> Plain(UNION {FewContexts(m) : m \in {MapOf(x) : x \in Pool}
                             \cup {PatOf(("^a" :> a) @@ ("^b" :> b)) : a, b \in Lesser}
                             \cup {With(MapOf(a), "patternProperties", JObj("^a" :> b)) : a, b \in Lesser}
                             \cup {With(PatOf(EmptyFn), "additionalProperties", x) : x \in {JBool(TRUE), JBool(FALSE), Int}}},
                          Grid({"avro"}, {"drop"}, No, No, {TRUE}, No, NoRx) \o Grid({"bq"}, {"cast", "drop"}, No, No, {TRUE}, B, NoRx))
    [] p = "C19" -> Plain(UNION {Contexts(x) : x \in {Empty, Int, OneOf(<<Int, Str>>), ObjAny("a" :> Empty), MapOf(Empty), ArrOf(ArrOf(Empty)),
                                                      OneOf(<<Null, ObjAny("a" :> Empty)>>)}},
                          Grid({"bq"}, {"cast"}, No, No, {TRUE}, No, {<<x>> : x \in Regexes})
                            \o Grid({"bq"}, {"drop", "panic"}, No, No, {TRUE}, No, {<<".*">>, <<"p">>}) \o Grid(Targets, {"cast"}, No, No, {TRUE}, No, NoRx)
                            \o Grid({"avro"}, {"cast"}, No, No, {TRUE}, No, {<<".*">>}))
    [] p = "C20" -> {Case("desc", <<c[1], c[2]>>, Grid(Targets, {"cast"}, No, No, {TRUE}, No, NoRx)) :
                       c \in {<<InReq(Describe(x, d, t)), InReq(x)>> : x \in Lesser, d, t \in SomeDescs}
                         \cup {<<InOpt(ArrOf(Describe(x, d, <<"t">>))), InOpt(ArrOf(x))>> : x \in Pool, d \in SomeDescs}
                         \cup {<<Describe(InOpt(x), d, <<"t">>), InOpt(x)>> : x \in Lesser, d \in SomeDescs}
                         \cup {<<InReq(OneOf(<<Describe(x, d, <<"t">>), y>>)), InReq(OneOf(<<x, y>>))>> : x, y \in Lesser, d \in {<<"some text">>}}}
    [] p = "C21" -> {Case("same", <<c[1], c[2]>>, IF deep THEN Grid(Targets, {"cast", "drop"}, No, No, B, No, NoRx) ELSE TwoOpts) :
                       c \in UNION {{<<w[1], w[2]>> : w \in {<<x, y>>, <<InReq(x), InReq(y)>>, <<InOpt(ArrOf(x)), InOpt(ArrOf(y))>>}} :
                                       <<x, y>> \in UNION {{<<v, l>> : l \in Littered(v)} : v \in Pool}}}
    [] p = "C23" -> {[kind |-> "embed", parts |-> <<PartAt(<<"p">>, x, cs), PartAt(q, x, cs)>>] :
                       x \in Pool \cup Pairs(some), q \in EmbedPaths, cs \in {Grid(Targets, {"cast"}, No, B, {TRUE}, No, NoRx)}}
    [] p = "C24" -> Plain(UNION {{x, InReq(x), InOpt(x)} : x \in UNION {Nested(Lesser, d) : d \in 1..(IF deep THEN 5 ELSE 3)}},
                          Grid(Targets, {"cast"} \cup (IF deep THEN {"drop"} ELSE {}), No, No, {TRUE}, No, NoRx))
    [] p = "C25" -> {[kind |-> "extend", added |-> q,
                      parts |-> <<PartAt(<<>>, ObjOf(("b" :> x) @@ ("d" :> y) @@ ("zz" :> Int), <<"b">>), cs),
                                  PartAt(<<>>, ObjOf((q :> Int) @@ ("b" :> x) @@ ("d" :> y) @@ ("zz" :> Int), r), cs)>>] :
                       x \in some, y \in Lesser, q \in {"a", "B", "zzz"}, r \in {<<"b">>, <<"b", "c", "a">>},
                       cs \in {IF deep THEN Grid(Targets, {"cast", "drop"}, No, B, {TRUE}, No, NoRx) ELSE TwoOpts}}
         \cup {[kind |-> "extend", added |-> q,
                parts |-> <<PartAt(path, ObjOf((n :> Str) @@ ("z" :> Null), r), cs), PartAt(path, ObjOf((q :> Int) @@ (n :> Str) @@ ("z" :> Null), r), cs)>>] :
                n \in NamePool, q \in NamePool, r \in {<<"z">>}, path \in {<<>>, <<"p">>, <<"p", "[]">>},
                cs \in {Grid(Targets, {"cast"}, B, No, {TRUE}, No, NoRx)}}
    [] p = "C26" -> Plain(Pool \cup Pairs(Pool) \cup {ArrOf(x) : x \in Pool} \cup {MapOf(x) : x \in Pool} \cup {OneOf(<<x>>) : x \in Pool}
                          \cup (IF deep THEN {OneOf(<<a, b, Null>>) : a, b \in Pool} ELSE {}),
                          Grid(Targets, Methods, No, No, {TRUE}, No, NoRx))
    [] p = "C28" ->
         LET calls == Grid(Targets, IF deep THEN Methods ELSE {"cast"}, No, IF deep THEN B ELSE No, {TRUE}, No, NoRx)
             Lists == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>}
             Two(x, y, r) == ObjOf(("a" :> x) @@ ("b" :> y), r)
             More(r) == r \o <<"q">> \o r
         IN {Case("required", <<Two(x, y, r), Two(x, y, q), Two(x, y, More(r))>>, calls) : x \in some, y \in {Int, Empty}, r \in Lists, q \in Lists}
            \cup {Case("required", <<InReq(OneOf(<<Two(x, Int, r), ObjOf("a" :> x, q)>>)), InReq(OneOf(<<Two(x, Int, t), ObjAny("a" :> x)>>)),
                                     InReq(OneOf(<<Two(x, Int, More(r)), ObjOf("a" :> x, More(q))>>))>>, calls) :
                    x \in some, r \in Lists, t \in {<<>>, <<"b">>}, q \in {<<>>, <<"a">>}}
            \cup {Case("required", <<InOpt(ArrOf(Two(x, Str, <<"a">>))), InReq(ArrOf(Two(x, Str, r))), InOpt(ArrOf(Two(x, Str, <<"q", "a">>)))>>, calls) : x \in Pool, r \in Lists}
    [] p = "C29" ->
         {[kind |-> "rename", from |-> "pp", to |-> q,
           parts |-> <<PartAt(path, ObjOf(("pp" :> x) @@ ("o" :> Null) @@ ("z" :> Str), <<"pp">>), cs),
                       PartAt(path, ObjOf((q :> x) @@ ("o" :> Null) @@ ("z" :> Str), <<q>>), cs)>>] :
            q \in NamePool \cup {"value", "f1_", "f01_", "type", "__unknown__", "Root", "items", "properties", "null", "_", "x9"},
            x \in some, path \in IF deep THEN {<<>>, <<"p">>, <<"p", "[]">>, <<"p", "{}">>, <<"p", "f0_">>} ELSE {<<>>, <<"p", "[]">>},
            cs \in {Grid(Targets, {"cast"} \cup (IF deep THEN {"drop"} ELSE {}), B, No, {TRUE}, No, NoRx)}}
         \* a name that belongs to the others: the entries of a map, the items of a tuple, a list
         \cup {[kind |-> "rename", from |-> "pp", to |-> g[1],
           parts |-> <<PartAt(path, ObjOf(("pp" :> x) @@ [k \in g[2] |-> Int], <<"pp">>), cs),
                       PartAt(path, ObjOf((g[1] :> x) @@ [k \in g[2] |-> Int], <<g[1]>>), cs)>>] :
            g \in {<<"key", {"value"}>>, <<"value", {"key"}>>, <<"list", {}>>, <<"value", {}>>, <<"key", {}>>, <<"f1_", {"f0_"}>>, <<"f0_", {"f1_"}>>,
                  <<"f0_", {}>>, <<"root", {}>>, <<"name", {"type"}>>, <<"type", {"fields", "name"}>>},
            x \in some, path \in {<<>>, <<"p">>, <<"p", "[]">>, <<"p", "{}">>},
            cs \in {Grid(Targets, {"cast"}, No, No, {TRUE}, No, NoRx)}}
    [] p = "C31" -> Plain(every \cup Sized \cup {InReq(ObjAny(("a" :> x) @@ ("b" :> ObjAny("c" :> y)))) : x, y \in Lesser},
                          Grid(Targets, {"panic"}, IF deep THEN B ELSE No, No, {TRUE}, No, NoRx) \o Grid({"bq"}, {"panic"}, No, No, {TRUE}, No, {<<"p">>, <<"zz">>}))
    [] p = "C32" ->
         LET calls == Grid(Targets, {"cast"}, No, IF deep THEN B ELSE No, B, No, NoRx)
             Wide(x, y) == IF DOMAIN x.o = {"oneOf"} THEN OneOf(<<y>> \o x.o["oneOf"].a) ELSE OneOf(<<x, y>>)
         IN {Case("widen", <<f[1], f[2]>>, calls) :
               f \in UNION {{<<x, Wide(x, y)>>, <<InReq(x), InReq(Wide(x, y))>>, <<InOpt(ArrOf(x)), InOpt(ArrOf(Wide(x, y)))>>,
                             <<MapOf(x), MapOf(Wide(x, y))>>, <<InTup(x), InTup(Wide(x, y))>>} : x \in Pool, y \in some}
                    \cup {<<InReq(OneOf(<<x, y>>)), InReq(OneOf(<<x, y, z>>))>> : x, y, z \in some}}
=============================================================================
