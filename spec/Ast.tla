--------------------------------- MODULE Ast --------------------------------
(***************************************************************************)
(* The intermediate tree and the passes over it, in the order and with the *)
(* case analysis of the implementation (src/jsonschema.rs, src/ast.rs).    *)
(* Each pass is one action of the state machine in Pipeline.tla.           *)
(***************************************************************************)
EXTENDS Schema, Names, FiniteSets

(* A node: kind, atom name, fields (object), required names (object), items *)
(* (array: 1, map: the value, tuple, union), nullable, name, namespace,     *)
(* description and title.                                                   *)
Nd(k, a, f, req, items, nul, d, t) ==
  [k |-> k, a |-> a, f |-> f, req |-> req, items |-> items, nul |-> nul,
   nm |-> "", ns |-> "", d |-> d, t |-> t]
NoReq == [has |-> FALSE, s |-> {}]
Reqs(S) == [has |-> TRUE, s |-> S]

ErrNode      == Nd("err", "", EmptyFn, NoReq, <<>>, FALSE, <<>>, <<>>)
NullNode(d, t) == Nd("null", "", EmptyFn, NoReq, <<>>, TRUE, d, t)
AtomNode(a, d, t) == Nd("atom", a, EmptyFn, NoReq, <<>>, FALSE, d, t)
UnionNode(items, nul, d, t) == Nd("union", "", EmptyFn, NoReq, items, nul, d, t)
ArrayNode(x, d, t) == Nd("array", "", EmptyFn, NoReq, <<x>>, FALSE, d, t)
MapNode(x, d, t) == Nd("map", "", EmptyFn, NoReq, <<x>>, FALSE, d, t)
TupleNode(xs, d, t) == Nd("tuple", "", EmptyFn, NoReq, xs, FALSE, d, t)
ObjectNode(f, req, d, t) == Nd("object", "", f, req, <<>>, FALSE, d, t)

IsErr(n) == n.k = "err"
AnyErr(s) == \E i \in DOMAIN s : s[i].k = "err"

\* The patterns of a map are kept in a hash map, so their order is arbitrary:
\* p chooses one.  That no choice matters is a property (Pipeline!Confluent).
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
InOrder(S, p) == LET s == SeqOfSet(S)
                     m == Len(s)
                 IN IF m < 2 THEN s
                    ELSE CASE p = 0 -> s
                           [] p = 1 -> Reverse(s)
                           [] OTHER -> [i \in 1..m |-> s[((i + p - 2) % m) + 1]]

(* ------------------------- 1. schema -> tree ---------------------------- *)
RECURSIVE Build(_, _, _)
RECURSIVE BuildAs(_, _, _, _)
\* ts: tuples as structs; p: pattern order
BuildTuple(v, ts, p, d, t) ==
  LET given == TLCEval([i \in DOMAIN v.o["items"].a |-> Build(v.o["items"].a[i], ts, p)])
      len == Len(given)
      min == IF Given(v, "minItems") THEN CountOf(v.o["minItems"]) ELSE len
      max == IF Given(v, "maxItems") THEN CountOf(v.o["maxItems"]) ELSE 0
      opt == TLCEval([i \in 1..len |-> IF i > min THEN [given[i] EXCEPT !.nul = TRUE] ELSE given[i]])
  IN IF AnyErr(given) THEN ErrNode
     ELSE IF ~Given(v, "additionalItems")
          THEN IF max = len THEN TupleNode(opt, d, t) ELSE ErrNode
     ELSE LET add == v.o["additionalItems"] IN
          IF IsBool(add) THEN IF add.b THEN ErrNode ELSE TupleNode(opt, d, t)
          ELSE IF max < len THEN ErrNode
          ELSE IF max = len THEN TupleNode(opt, d, t)
          ELSE LET x == Build(add, ts, p) IN
               IF IsErr(x) THEN ErrNode
               ELSE TupleNode(opt \o [i \in 1..(max - len) |-> [x EXCEPT !.nul = TRUE]], d, t)

BuildAs(v, atom, ts, p) ==
  LET d == TextOpt(v, "description")
      t == TextOpt(v, "title")
  IN CASE atom = "null" -> NullNode(d, t)
       [] atom = "date-time" -> AtomNode("datetime", d, t)
       [] atom \in {"boolean", "number", "integer", "string", "bytes"} -> AtomNode(atom, d, t)
       [] atom = "object" ->
            IF Given(v, "properties")
            THEN LET ps == v.o["properties"].o
                     f == TLCEval([k \in DOMAIN ps |-> Build(ps[k], ts, p)])
                 IN IF \E k \in DOMAIN f : IsErr(f[k]) THEN ErrNode
                    ELSE ObjectNode(f, IF Given(v, "required") THEN Reqs(Required(v)) ELSE NoReq, d, t)
            ELSE IF IsMapSchema(v)
            THEN LET pats == Patterns(v)
                     ord == InOrder(DOMAIN pats, p)
                     vals == TLCEval([i \in DOMAIN AddlSchema(v) |-> Build(AddlSchema(v)[i], ts, p)])
                               \o TLCEval([i \in DOMAIN ord |-> Build(pats[ord[i]], ts, p)])
                 IN IF AnyErr(vals) THEN ErrNode
                    ELSE IF ~Given(v, "patternProperties") THEN MapNode(vals[1], d, t)
                    ELSE MapNode(UnionNode(vals, FALSE, <<>>, <<>>), d, t)
            ELSE IF Given(v, "oneOf")
            THEN LET items == TLCEval([i \in DOMAIN v.o["oneOf"].a |-> Build(v.o["oneOf"].a[i], ts, p)])
                 IN IF AnyErr(items) THEN ErrNode
                    ELSE UnionNode(items, \E i \in DOMAIN items : items[i].k = "null", d, t)
            ELSE AtomNode("json", d, t)
       [] atom = "array" ->
            IF ~Given(v, "items") THEN ErrNode
            ELSE IF IsObj(v.o["items"])
            THEN LET x == Build(v.o["items"], ts, p)
                 IN IF IsErr(x) THEN ErrNode ELSE ArrayNode(x, d, t)
            ELSE IF ts THEN BuildTuple(v, ts, p, d, t)
            ELSE AtomNode("json", d, t)

Build(v, ts, p) ==
  LET ty == TypeOf(v) IN
  IF ~ty.ok THEN ErrNode
  ELSE IF ~ty.list THEN BuildAs(v, ty.atoms[1], ts, p)
  ELSE LET items == TLCEval([i \in DOMAIN ty.atoms |-> BuildAs(v, ty.atoms[i], ts, p)])
       IN IF AnyErr(items) THEN ErrNode
          ELSE UnionNode(items, \E i \in DOMAIN ty.atoms : ty.atoms[i] = "null",
                         TextOpt(v, "description"), TextOpt(v, "title"))

(* ------------------------- 2. names ------------------------------------- *)
Normalize(n, nc) ==
  IF n.k # "object" THEN n
  ELSE LET cols == ColumnsOf(DOMAIN n.f, nc)
       IN [n EXCEPT !.f = TLCEval([c \in cols |-> n.f[Winner(DOMAIN n.f, nc, c)]]),
                    !.req = IF n.req.has THEN Reqs(ColumnsOf(n.req.s, nc)) ELSE NoReq]

Join(ns, name) == IF ns = "" THEN name ELSE ns \o "." \o name
RECURSIVE NameBelow(_, _, _)
NameBelow(n0, ns, nc) ==
  LET n == Normalize(n0, nc)
      Child(c, name) == NameBelow([c EXCEPT !.nm = name, !.ns = ns], Join(ns, name), nc)
  IN CASE n.k = "object" -> [n EXCEPT !.f = TLCEval([c \in DOMAIN n.f |-> Child(n.f[c], c)])]
       [] n.k = "map"    -> [n EXCEPT !.items = <<Child(n.items[1], "value")>>]
       [] n.k = "array"  -> [n EXCEPT !.items = <<Child(n.items[1], "list")>>]
       [] n.k = "union"  -> [n EXCEPT !.items = TLCEval([i \in DOMAIN n.items |-> Child(n.items[i], "__union__")])]
       [] n.k = "tuple"  -> [n EXCEPT !.items = TLCEval([i \in DOMAIN n.items |->
                                 Child(n.items[i], "f" \o NatText(i - 1) \o "_")])]
       [] OTHER -> n
InferName(n, nc) == NameBelow(n, IF n.ns = "" THEN n.nm ELSE n.ns \o "." \o n.nm, nc)

(* ------------------------- 3. nullability ------------------------------- *)
RECURSIVE InferNull(_, _)
InferNull(n, force) ==
  LET Field(c) == LET x == InferNull(n.f[c], force)
                  IN [x EXCEPT !.nul = @ \/ c \notin n.req.s \/ force]
      m == CASE n.k = "null" -> [n EXCEPT !.nul = TRUE]
             [] n.k = "object" -> [n EXCEPT !.f = TLCEval([c \in DOMAIN n.f |-> Field(c)])]
             [] n.k \in {"map", "array", "tuple", "union"} ->
                  [n EXCEPT !.items = TLCEval([i \in DOMAIN n.items |-> InferNull(n.items[i], force)])]
             [] OTHER -> n
  IN IF force THEN [m EXCEPT !.nul = TRUE] ELSE m

(* ------------------------- 4. unions ------------------------------------ *)
JoinAtoms(x, y) == IF x = y THEN x
                   ELSE IF {x, y} = {"integer", "number"} THEN "number" ELSE "json"
IsJsonNode(n) == n.k = "atom" /\ n.a = "json"

RECURSIVE Collapse(_)
RECURSIVE CollapseUnion(_)
RECURSIVE FoldObjects(_, _, _)
\* The kind and contents of n without its attributes
Bare(n, nul) == [n EXCEPT !.nul = nul, !.nm = "", !.ns = "", !.d = <<>>, !.t = <<>>]
JsonBare == AtomNode("json", <<>>, <<>>)

MergeObjects(l, r) ==
  LET cols == DOMAIN l.f \cup DOMAIN r.f
      f == TLCEval([c \in cols |-> CollapseUnion(
                (IF c \in DOMAIN l.f THEN <<l.f[c]>> ELSE <<>>)
                  \o (IF c \in DOMAIN r.f THEN <<r.f[c]>> ELSE <<>>))])
  IN IF \E c \in cols : IsJsonNode(f[c]) THEN JsonBare
     ELSE ObjectNode(f, IF l.req.has /\ r.req.has THEN Reqs(l.req.s \cap r.req.s) ELSE NoReq, <<>>, <<>>)
FoldObjects(acc, items, i) ==
  IF i > Len(items) THEN acc
  ELSE FoldObjects(IF acc.k = "object" THEN MergeObjects(acc, items[i]) ELSE JsonBare, items, i + 1)
RECURSIVE FoldAtoms(_, _, _)
FoldAtoms(acc, items, i) ==
  IF i > Len(items) THEN acc ELSE FoldAtoms(JoinAtoms(acc, items[i].a), items, i + 1)

CollapseUnion(items) ==
  IF items = <<>> THEN ErrNode
  ELSE LET sub == TLCEval([i \in DOMAIN items |-> Collapse(items[i])])
           hadNull == \E i \in DOMAIN items : items[i].k = "null"
       IN IF AnyErr(sub) THEN ErrNode
          ELSE IF Len(items) = 1 THEN Bare(sub[1], hadNull \/ sub[1].nul)
          ELSE LET nul == hadNull \/ \E i \in DOMAIN sub : sub[i].nul
                   xs == SelectSeq(sub, LAMBDA x : x.k # "null")
                   All(k) == \A i \in DOMAIN xs : xs[i].k = k
                   inner == [i \in DOMAIN xs |-> xs[i].items[1]]
                   m == IF xs = <<>> THEN NullNode(<<>>, <<>>)
                        ELSE IF Len(xs) = 1 THEN xs[1]
                        ELSE IF All("atom") THEN AtomNode(FoldAtoms(xs[1].a, xs, 2), <<>>, <<>>)
                        ELSE IF All("object") THEN FoldObjects(xs[1], xs, 2)
                        ELSE IF All("map") THEN MapNode(CollapseUnion(inner), <<>>, <<>>)
                        ELSE IF All("array") THEN ArrayNode(CollapseUnion(inner), <<>>, <<>>)
                        ELSE JsonBare
               IN InferNull(Bare(m, nul), FALSE)

Collapse(n) ==
  LET fs == TLCEval([c \in DOMAIN n.f |-> Collapse(n.f[c])])
      xs == TLCEval([i \in DOMAIN n.items |-> Collapse(n.items[i])])
  IN CASE n.k = "object" -> IF \E c \in DOMAIN fs : IsErr(fs[c]) THEN ErrNode ELSE [n EXCEPT !.f = fs]
       [] n.k \in {"map", "array", "tuple"} -> IF AnyErr(xs) THEN ErrNode ELSE [n EXCEPT !.items = xs]
       [] n.k = "union" -> LET u == CollapseUnion(n.items)
                           IN IF IsErr(u) THEN ErrNode
                              ELSE [u EXCEPT !.nul = n.nul \/ u.nul, !.nm = n.nm, !.ns = n.ns,
                                             !.d = n.d, !.t = n.t]
       [] OTHER -> n
=============================================================================
