------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* The converter as a service: workers (threads of several processes, and  *)
(* runs of the command) call it, concurrently and in any order.  A key     *)
(* stands for one input: a schema, a target and a set of options.  The     *)
(* converter is pure: there is a function from keys to outcomes, fixed     *)
(* once and for all, and each call returns the outcome of its key no       *)
(* matter what was called before, is being called, or failed.  The         *)
(* function is not known beforehand: it is learned from the first return.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Workers, NKeys, Outcomes

Unknown == 0          \* keys and outcomes are positive
Idle == 0
Keys == 1..NKeys
VARIABLES flight,     \* worker -> the key it is converting, or Idle
          said        \* key -> its outcome, as far as it is known

SInit == flight = [w \in Workers |-> Idle] /\ said = [k \in Keys |-> Unknown]
Begin(w, k) == flight[w] = Idle /\ flight' = [flight EXCEPT ![w] = k] /\ UNCHANGED said
Consistent(k, r) == said[k] \in {Unknown, r}
End(w, r) == /\ flight[w] # Idle /\ Consistent(flight[w], r)
             /\ said' = [said EXCEPT ![flight[w]] = r]
             /\ flight' = [flight EXCEPT ![w] = Idle]
SNext == \E w \in Workers : (\E k \in Keys : Begin(w, k)) \/ (\E r \in Outcomes : End(w, r))
SSpec == SInit /\ [][SNext]_<<flight, said>>
\* what is known never changes
Fixed == [][\A k \in Keys : said[k] # Unknown => said'[k] = said[k]]_<<flight, said>>
=============================================================================
