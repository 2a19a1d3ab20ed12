------------------------------ MODULE MCSession -----------------------------
(***************************************************************************)
(* A converter whose calls have an inside: each call reads its input, works*)
(* on a tree of its own, may fail half way, and returns.  Every history of *)
(* it is a history of Session.  With $SHARED = 1 the tree is shared by the *)
(* workers, as it would be if a pass kept it in a static; then it is not.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils
W == 1..3
K == 1..2
R == 1..2
Shared == IOEnv.SHARED = "1"
VARIABLES flight, said, pc, tree, truth
vars == <<flight, said, pc, tree, truth>>
S == INSTANCE Session WITH Workers <- W, NKeys <- 2, Outcomes <- R
Mine(w) == IF Shared THEN 1 ELSE w
Init == /\ S!SInit /\ pc = [w \in W |-> "idle"] /\ tree = [w \in W |-> 0] /\ truth \in [K -> R]
Call(w, k) == /\ pc[w] = "idle" /\ S!Begin(w, k) /\ pc' = [pc EXCEPT ![w] = "read"] /\ UNCHANGED <<tree, truth>>
Read(w) == /\ pc[w] = "read" /\ tree' = [tree EXCEPT ![Mine(w)] = flight[w]] /\ pc' = [pc EXCEPT ![w] = "made"]
           /\ UNCHANGED <<flight, said, truth>>
\* what comes out is a function of the tree
Result(w) == truth[tree[Mine(w)]]
Return(w) == /\ pc[w] = "made" /\ pc' = [pc EXCEPT ![w] = "idle"]
             /\ flight' = [flight EXCEPT ![w] = 0]
             /\ said' = [said EXCEPT ![flight[w]] = Result(w)] /\ UNCHANGED <<tree, truth>>
Next == \E w \in W : (\E k \in K : Call(w, k)) \/ Read(w) \/ Return(w)
Spec == Init /\ [][Next]_vars
Refines == S!SSpec
=============================================================================
