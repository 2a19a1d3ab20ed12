-------------------------------- MODULE Json2 -------------------------------
(***************************************************************************)
(* JSON values as tagged records, so that values of different kinds can be *)
(* compared.  The conformance harness writes inputs and outputs in exactly *)
(* this form:                                                              *)
(*   null [j|->"n"]   true [j|->"b", b|->TRUE]   7 [j|->"i", i|->7]        *)
(*   1.5 [j|->"f", f|->"1.5"]   "x" [j|->"s", s|->"x"]                     *)
(*   [..] [j|->"a", a|-> <<..>>]   {..} [j|->"o", o|-> name :> value ..]   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

JNull    == [j |-> "n"]
JBool(x) == [j |-> "b", b |-> x]
JInt(x)  == [j |-> "i", i |-> x]
JFloat(x) == [j |-> "f", f |-> x]
JStr(x)  == [j |-> "s", s |-> x]
JArr(x)  == [j |-> "a", a |-> x]
JObj(x)  == [j |-> "o", o |-> x]

IsObj(v) == v.j = "o"
IsArr(v) == v.j = "a"
IsStr(v) == v.j = "s"
IsInt(v) == v.j = "i"
IsNull(v) == v.j = "n"
IsBool(v) == v.j = "b"

Keys(v) == DOMAIN v.o
Has(v, k) == k \in DOMAIN v.o
Get(v, k) == v.o[k]
\* A keyword that is present and not null; serde reads a null keyword as absent.
Given(v, k) == k \in DOMAIN v.o /\ v.o[k].j # "n"

\* A set in some order
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>>
               ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})

EmptyFn == <<>>
Range(f) == {f[x] : x \in DOMAIN f}
=============================================================================
