------------------------------- MODULE Casing -------------------------------
(***************************************************************************)
(* snake_case.  Scan is the automaton of the implementation (the word      *)
(* splitter of the heck crate): one step per character, with the mode of   *)
(* the current word (Boundary, Lower, Upper) as its state.  Declared is an *)
(* independent statement of the documented rules: where the word           *)
(* boundaries are, as a function of the neighbourhood of a position.       *)
(* MCCasing checks that the two agree on every word over an alphabet.      *)
(***************************************************************************)
EXTENDS Text, FiniteSets

(* ---- the automaton: state <<mode, pos, words so far, open word>> ---- *)
NextMode(c, mode) == IF c \in Lowers THEN "lower" ELSE IF c \in Uppers THEN "upper" ELSE mode

\* out: finished words joined by "_"; cur: the word being collected
Close(out, cur) == IF cur = "" THEN out ELSE IF out = "" THEN cur ELSE out \o "_" \o cur

RECURSIVE Scan(_, _, _, _, _)
Scan(s, i, mode, out, cur) ==
  IF i > Len(s) THEN Close(out, cur)
  ELSE LET c == At(s, i) IN
    IF c \notin AlNum THEN Scan(s, i + 1, "boundary", Close(out, cur), "")
    ELSE LET hasNext == i < Len(s) /\ At(s, i + 1) \in AlNum
             next == IF hasNext THEN At(s, i + 1) ELSE ""
             nm == NextMode(c, mode)
         IN IF hasNext /\ nm = "lower" /\ next \in Uppers
            THEN Scan(s, i + 1, "boundary", Close(out, cur \o ToLower(c)), "")
            ELSE IF hasNext /\ mode = "upper" /\ c \in Uppers /\ next \in Lowers
            THEN Scan(s, i + 1, "boundary", Close(out, cur), ToLower(c))
            ELSE Scan(s, i + 1, nm, out, cur \o ToLower(c))
SnakeCase(s) == Scan(s, 1, "boundary", "", "")

(* ---- the declarative reading of the documentation ---- *)
\* The case of the most recent letter of the run of letters and digits that i is in.
RECURSIVE CaseAt(_, _)
CaseAt(s, i) ==
  IF i < 1 \/ At(s, i) \notin AlNum THEN "none"
  ELSE IF At(s, i) \in Lowers THEN "lower"
  ELSE IF At(s, i) \in Uppers THEN "upper"
  ELSE CaseAt(s, i - 1)

\* A boundary lies between i and i+1.
Breaks(s, i) ==
  /\ At(s, i) \in AlNum /\ At(s, i + 1) \in AlNum
  /\ At(s, i + 1) \in Uppers
  /\ \/ CaseAt(s, i) = "lower"                           \* camel|Case, a7|Aa
     \/ /\ CaseAt(s, i) = "upper"                        \* XML|Http, A7|Aa
        /\ i + 2 <= Len(s) /\ At(s, i + 2) \in Lowers

RECURSIVE DeclFrom(_, _, _)
DeclFrom(s, i, out) ==
  IF i > Len(s) THEN out
  ELSE LET c == At(s, i)
           first == out = ""
           sep == i > 1 /\ (At(s, i - 1) \notin AlNum \/ Breaks(s, i - 1))
       IN IF c \notin AlNum THEN DeclFrom(s, i + 1, out)
          ELSE DeclFrom(s, i + 1, out \o (IF sep /\ ~first THEN "_" ELSE "") \o ToLower(c))
Declared(s) == DeclFrom(s, 1, "")

\* Laws of the function, for the text s -> r
CasingLaws(s, r) ==
  /\ \A i \in 1..Len(r) : At(r, i) \in (Lowers \cup Digits \cup {"_"})
  /\ r = "" \/ (At(r, 1) # "_" /\ At(r, Len(r)) # "_")
  /\ \A i \in 1..(Len(r) - 1) : ~(At(r, i) = "_" /\ At(r, i + 1) = "_")
  /\ SelectSeq([i \in 1..Len(r) |-> At(r, i)], LAMBDA c : c # "_")
       = SelectSeq([i \in 1..Len(s) |-> ToLower(At(s, i))], LAMBDA c : c \in AlNum)
=============================================================================
