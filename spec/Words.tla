-------------------------------- MODULE Words -------------------------------
(* Judges recorded results of the snake_case function: [id, s, ok, r].     *)
EXTENDS Casing, Json, IOUtils, Sequences

Obs == ndJsonDeserialize(IOEnv.OBS)
WordFails(o) ==
  IF ~o.ok THEN {"failed"}
  ELSE (IF o.r # SnakeCase(o.s) THEN {"differs"} ELSE {})
       \cup (IF o.r # Declared(o.s) THEN {"not as documented"} ELSE {})
       \cup (IF CasingLaws(o.s, o.r) THEN {} ELSE {"not snake case"})
RECURSIVE AsSeq(_)
AsSeq(X) == IF X = {} THEN <<>> ELSE LET e == CHOOSE y \in X : TRUE IN <<e>> \o AsSeq(X \ {e})
VARIABLES qIdx, qVerdict
Init == qIdx \in DOMAIN Obs /\ qVerdict = "open"
Next ==
  /\ qVerdict = "open" /\ qIdx' = qIdx
  /\ LET d == TLCEval(WordFails(Obs[qIdx]))
     IN qVerdict' = IF d = {} THEN "holds"
                    ELSE IF PrintT("FAIL " \o ToJson([id |-> Obs[qIdx].id, fails |-> [i \in DOMAIN AsSeq(d) |-> <<AsSeq(d)[i], <<1, 1>>, "">>]]))
                    THEN "fails" ELSE "fails"
=============================================================================
