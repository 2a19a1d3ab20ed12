------------------------------ MODULE OptJudge ------------------------------
(* Judges recorded readings of options.                                   *)
EXTENDS Options, Json, IOUtils
OptObs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES oIdx, oVerdict
Init == oIdx \in DOMAIN OptObs /\ oVerdict = "open"
Report(o, d) == LET s == SeqOfSet(d) IN PrintT("FAIL " \o ToJson([id |-> o.id, fails |-> [i \in DOMAIN s |-> <<s[i], <<1, 1>>, "">>]]))
Next ==
  /\ oVerdict = "open" /\ oIdx' = oIdx
  /\ LET d == TLCEval(OptFails(OptObs[oIdx]))
     IN oVerdict' = IF d = {} THEN "holds" ELSE IF Report(OptObs[oIdx], d) THEN "fails" ELSE "fails"
=============================================================================
