-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Character-level text.  TLC lets Len, SubSeq and \o work on strings, so  *)
(* a name is handled one character at a time, as the code does.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LowerText == "abcdefghijklmnopqrstuvwxyz"
UpperText == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DigitText == "0123456789"

At(s, i) == SubSeq(s, i, i)
CharsOf(s) == {At(s, i) : i \in 1..Len(s)}

Rank  == [c \in CharsOf(Ascii) |-> CHOOSE i \in 1..Len(Ascii) : At(Ascii, i) = c]
Lowers == CharsOf(LowerText)
Uppers == CharsOf(UpperText)
Digits == CharsOf(DigitText)
AlNum  == Lowers \cup Uppers \cup Digits
WordChars == AlNum \cup {"_"}
LowerOf == [c \in Uppers |->
              At(LowerText, CHOOSE i \in 1..26 : At(UpperText, i) = c)]
ToLower(c) == IF c \in Uppers THEN LowerOf[c] ELSE c

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE ToLower(At(s, i)) \o LowerFrom(s, i + 1)
LowerCase(s) == LowerFrom(s, 1)

\* Byte order of ASCII text; only ever needed for legal column names and for
\* raw names that normalize to the same column name, which are ASCII.
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF At(a, i) = At(b, i) THEN LessFrom(a, b, i + 1)
  ELSE Rank[At(a, i)] < Rank[At(b, i)]
LessDef(a, b) == LessFrom(a, b, 1)
\* Tables.tla replaces this by a lookup in a table of the same relation.
Less(a, b) == LessDef(a, b)
MaxText(S) == CHOOSE x \in S : \A y \in S : y = x \/ Less(y, x)

SortTexts(S) ==
  LET place == TLCEval([x \in S |-> Cardinality({y \in S : Less(y, x)}) + 1])
  IN TLCEval([i \in 1..Cardinality(S) |-> CHOOSE x \in S : place[x] = i])

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN At(DigitText, n + 1)
              ELSE NatText(n \div 10) \o At(DigitText, (n % 10) + 1)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
=============================================================================
