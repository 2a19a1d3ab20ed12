-------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Judges recorded behaviour of the real program.  Each observation of the *)
(* file $OBS starts a behaviour: take it up, judge it.  A contradiction is *)
(* reported on a line of its own; TLC goes on with the others.             *)
(***************************************************************************)
EXTENDS Tables

Prop == IOEnv.PROP
Report(o, d) == PrintT("FAIL " \o ToJson([id |-> o.id, fails |-> SeqOfSet(d)]))

VARIABLES jIdx, jVerdict
Init == jIdx \in DOMAIN Obs /\ jVerdict = "open"
Next ==
  /\ jVerdict = "open"
  /\ jIdx' = jIdx
  /\ LET d == TLCEval(Fails(Prop, Obs[jIdx]))
     IN jVerdict' = IF d = {} THEN "holds" ELSE IF Report(Obs[jIdx], d) THEN "fails" ELSE "fails"
Spec == Init /\ [][Next]_<<jIdx, jVerdict>>
=============================================================================
