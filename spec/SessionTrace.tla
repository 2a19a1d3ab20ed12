---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Checks a recorded session against Session.  $OBS has one event per line,*)
(* [w, a |-> "begin" or "end", k, r], in the order in which they happened. *)
(* Every event has to be a step of Session; one that is not is reported,   *)
(* and the state is left as if the call had returned what was known.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
TraceEv == ndJsonDeserialize(IOEnv.OBS)
TraceWorkers == {TraceEv[i].w : i \in DOMAIN TraceEv}
TraceKeys == CHOOSE n \in {TraceEv[1].nkeys} : TRUE
VARIABLES flight, said, tPos
S == INSTANCE Session WITH Workers <- TraceWorkers, NKeys <- TraceKeys, Outcomes <- Nat
E == TraceEv[tPos]
Report(what) == PrintT("FAIL " \o ToJson([id |-> E.id, fails |-> <<<<what, <<1, 1>>, "">>>>]))
Init == S!SInit /\ tPos = 1
Step ==
  /\ tPos <= Len(TraceEv) /\ tPos' = tPos + 1
  /\ IF E.a = "begin" THEN S!Begin(E.w, E.k)
     ELSE IF flight[E.w] = E.k /\ S!Consistent(E.k, E.r) THEN S!End(E.w, E.r)
     ELSE /\ Report("another outcome for the same input")
          /\ flight' = [flight EXCEPT ![E.w] = 0] /\ UNCHANGED said
\* every event was read
Whole == TLCGet("stats").diameter = Len(TraceEv) + 1
Spec == Init /\ [][Step]_<<flight, said, tPos>>
=============================================================================
