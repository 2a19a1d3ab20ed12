-------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Property name -> column name.  A result <<>> means that the property    *)
(* has no legal column name and is left out.                               *)
(***************************************************************************)
EXTENDS Casing

RECURSIVE SubstFrom(_, _)
SubstFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF At(s, i) \in {".", "-"} THEN "_" ELSE At(s, i)) \o SubstFrom(s, i + 1)

Prefix(s) == IF s = "" \/ At(s, 1) \in Digits THEN "_" \o s ELSE s

IsLegalName(s) == /\ s # ""
                  /\ \A i \in 1..Len(s) : At(s, i) \in WordChars
                  /\ At(s, 1) \notin Digits

Sanitize(s) == Prefix(SubstFrom(s, 1))

\* nc: snake_case the name
ColumnDef(s, nc) ==
  LET r == Sanitize(s)
  IN IF ~IsLegalName(r) THEN <<>>
     ELSE IF nc THEN <<Prefix(SnakeCase(r))>> ELSE <<r>>
\* Tables.tla replaces this by a lookup in a table of the same function.
Column(s, nc) == ColumnDef(s, nc)

ColumnsOf(S, nc) == {Column(s, nc)[1] : s \in {x \in S : Column(x, nc) # <<>>}}

\* Two or more properties compete for one column.
Collides(S, nc) == \E x, y \in S : x # y /\ Column(x, nc) # <<>> /\ Column(x, nc) = Column(y, nc)

\* Which property a column is made from: properties are taken in order, and one
\* that has to be renamed replaces what is there.
Winner(S, nc, col) ==
  LET c == {s \in S : Column(s, nc) = <<col>>}
      renamed == c \ {col}
  IN IF renamed = {} THEN col ELSE MaxText(renamed)
=============================================================================
