------------------------------ MODULE MCCasing ------------------------------
(***************************************************************************)
(* The word splitter as a state machine that reads one character at a      *)
(* time, explored on every word up to a length over the alphabet $ALPHA.   *)
(* When the word is read, what it has written is what the documented       *)
(* boundaries give, and obeys the laws of snake_case.                      *)
(***************************************************************************)
EXTENDS Casing, IOUtils

Alpha == CharsOf(IOEnv.ALPHA)
MaxLen == CHOOSE n \in 0..12 : NatText(n) = IOEnv.LENGTH

VARIABLES wText, wPos, wMode, wOut, wCur
vars == <<wText, wPos, wMode, wOut, wCur>>

Init == wText = "" /\ wPos = 0 /\ wMode = "boundary" /\ wOut = "" /\ wCur = ""
\* choose the word, then read it
Type(c) == wPos = 0 /\ Len(wText) < MaxLen /\ wText' = wText \o c /\ UNCHANGED <<wPos, wMode, wOut, wCur>>
Start == wPos = 0 /\ wPos' = 1 /\ UNCHANGED <<wText, wMode, wOut, wCur>>
Here == At(wText, wPos)
Peek == IF wPos < Len(wText) THEN At(wText, wPos + 1) ELSE ""
Reading == wPos >= 1 /\ wPos <= Len(wText)
Advance(mode, out, cur) == wPos' = wPos + 1 /\ wMode' = mode /\ wOut' = out /\ wCur' = cur /\ UNCHANGED wText
Skip == Reading /\ Here \notin AlNum /\ Advance("boundary", Close(wOut, wCur), "")
HumpEnds == NextMode(Here, wMode) = "lower" /\ Peek \in Uppers
WordStarts == wMode = "upper" /\ Here \in Uppers /\ Peek \in Lowers
EndHump == Reading /\ Here \in AlNum /\ HumpEnds /\ Advance("boundary", Close(wOut, wCur \o ToLower(Here)), "")
StartWord == Reading /\ Here \in AlNum /\ ~HumpEnds /\ WordStarts /\ Advance("boundary", Close(wOut, wCur), ToLower(Here))
Take == Reading /\ Here \in AlNum /\ ~HumpEnds /\ ~WordStarts
        /\ Advance(NextMode(Here, wMode), wOut, wCur \o ToLower(Here))
Next == Start \/ Skip \/ EndHump \/ StartWord \/ Take \/ \E c \in Alpha : Type(c)
Spec == Init /\ [][Next]_vars

Ended == wPos = Len(wText) + 1
Written == Close(wOut, wCur)
Agrees == Ended => Written = SnakeCase(wText) /\ Written = Declared(wText)
Lawful == Ended => CasingLaws(wText, Written)
Stable == Ended => SnakeCase(Written) = Written
\* what is written already is never taken back
Monotone == [][wPos > 0 => StartsWith(Close(wOut', wCur'), wOut)]_vars
=============================================================================
