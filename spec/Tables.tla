------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Memo tables for the text functions over the names that occur in the     *)
(* observations under judgement.  They change nothing but the speed:       *)
(* each entry is computed by the definition it stands for.                 *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

\* Deep values are recorded in pieces: [j |-> "@", i] stands for the i-th of o.more.
RECURSIVE Unfold(_, _)
Unfold(v, more) ==
  CASE v.j = "@" -> Unfold(more[v.i], more)
    [] v.j = "o" -> [v EXCEPT !.o = [k \in DOMAIN @ |-> Unfold(@[k], more)]]
    [] v.j = "a" -> [v EXCEPT !.a = [k \in DOMAIN @ |-> Unfold(@[k], more)]]
    [] OTHER -> v
Whole(o) ==
  IF "more" \notin DOMAIN o THEN o
  ELSE [o EXCEPT !.more = <<>>, !.parts = [i \in DOMAIN @ |->
         [@[i] EXCEPT !.schema = Unfold(@, o.more),
                      !.calls = [k \in DOMAIN @ |-> [@[k] EXCEPT !.out =
                          IF @.r = "ok" THEN [@ EXCEPT !.v = Unfold(@, o.more)] ELSE @]]]]]
ObsRead == ndJsonDeserialize(IOEnv.OBS)
Obs == [i \in DOMAIN ObsRead |-> Whole(ObsRead[i])]

RawNames == UNION {UNION {PropNames(Obs[i].parts[k].schema) : k \in DOMAIN Obs[i].parts} : i \in DOMAIN Obs}
ColTab1 == [nc \in BOOLEAN |-> [s \in RawNames |-> ColumnDef(s, nc)]]
Cols1 == UNION {{ColTab1[nc][s][1] : s \in {x \in RawNames : ColTab1[nc][x] # <<>>}} : nc \in BOOLEAN}
ColTab == [nc \in BOOLEAN |->
            [s \in RawNames \cup Cols1 |->
               IF s \in RawNames THEN ColTab1[nc][s] ELSE ColumnDef(s, nc)]]
ColumnFast(s, nc) == IF s \in DOMAIN ColTab[nc] THEN ColTab[nc][s] ELSE ColumnDef(s, nc)

LegalNames == Cols1 \cup {x \in RawNames : IsLegalName(x)}
                \cup {"f" \o NatText(i) \o "_" : i \in 0..24}
PlaceTab == [x \in LegalNames |-> Cardinality({y \in LegalNames : LessDef(y, x)})]
LessFast(a, b) == IF a \in DOMAIN PlaceTab /\ b \in DOMAIN PlaceTab
                  THEN PlaceTab[a] < PlaceTab[b] ELSE LessDef(a, b)

\* the path expressions: options, and metadata at the root of a schema
MetaOf(v) == IF v.j = "o" /\ "mozPipelineMetadata" \in DOMAIN v.o THEN LET m == v.o["mozPipelineMetadata"] IN
               IF m.j = "o" /\ "json_object_path_regex" \in DOMAIN m.o /\ m.o["json_object_path_regex"].j = "s"
               THEN {m.o["json_object_path_regex"].s} ELSE {} ELSE {}
Expressions == UNION {UNION {MetaOf(Obs[i].parts[k].schema) \cup
                 UNION {Range(Obs[i].parts[k].calls[c].x) : c \in DOMAIN Obs[i].parts[k].calls}
                 : k \in DOMAIN Obs[i].parts} : i \in DOMAIN Obs}
CompiledTab == [p \in Expressions |-> CompiledDef(p)]
CompiledFast(p) == IF p \in DOMAIN CompiledTab THEN CompiledTab[p] ELSE CompiledDef(p)
=============================================================================
