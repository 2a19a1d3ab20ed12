------------------------------ MODULE CliJudge ------------------------------
(* Judges recorded runs of the command.                                   *)
EXTENDS Cli, Json, IOUtils
CliObs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES lIdx, lVerdict
Init == lIdx \in DOMAIN CliObs /\ lVerdict = "open"
Report(o, d) == LET s == SeqOfSet(d) IN PrintT("FAIL " \o ToJson([id |-> o.id, fails |-> [i \in DOMAIN s |-> <<s[i], <<1, 1>>, "">>]]))
Next ==
  /\ lVerdict = "open" /\ lIdx' = lIdx
  /\ LET d == TLCEval(CliFails(CliObs[lIdx]))
     IN lVerdict' = IF d = {} THEN "holds" ELSE IF Report(CliObs[lIdx], d) THEN "fails" ELSE "fails"
=============================================================================
