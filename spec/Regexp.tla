------------------------------- MODULE Regexp -------------------------------
(***************************************************************************)
(* Path expressions: the part of the syntax of regular expressions that    *)
(* selects JSON columns.  Alternatives, groups, classes, escapes, the      *)
(* quantifiers (lazy or not), anchors, word boundaries and a leading (?i). *)
(* Parse turns the text into a tree; Ends gives the positions at which     *)
(* matches that start in a set may end.  A path is selected if some match   *)
(* starts at its first character, wherever it ends.                        *)
(***************************************************************************)
EXTENDS Text

SpaceChars == {" ", "\t"}
Chr(set, neg) == [k |-> "chr", set |-> set, neg |-> neg, ts |-> <<>>, lo |-> 0, hi |-> 0]
Node(kind, ts) == [k |-> kind, set |-> {}, neg |-> FALSE, ts |-> ts, lo |-> 0, hi |-> 0]
Rep(t, lo, hi) == [k |-> "rep", set |-> {}, neg |-> FALSE, ts |-> <<t>>, lo |-> lo, hi |-> hi]
Many == 1000

ClassOf(e) == CASE e = "d" -> Chr(Digits, FALSE)
                [] e = "D" -> Chr(Digits, TRUE)
                [] e = "w" -> Chr(WordChars, FALSE)
                [] e = "W" -> Chr(WordChars, TRUE)
                [] e = "s" -> Chr(SpaceChars, FALSE)
                [] e = "S" -> Chr(SpaceChars, TRUE)
                [] OTHER -> Chr({e}, FALSE)

\* nothing stands behind the end
Peek(p, i) == IF i > Len(p) THEN "" ELSE At(p, i)
\* the inside of [...] from i on; -> <<characters, position behind the bracket>>
RECURSIVE Class(_, _, _)
Class(p, i, acc) ==
  IF Peek(p, i) = "]" THEN <<acc, i + 1>>
  ELSE IF Peek(p, i) = "\\" THEN Class(p, i + 2, acc \cup ClassOf(Peek(p, i + 1)).set)
  ELSE IF Peek(p, i + 1) = "-" /\ Peek(p, i + 2) # "]"
       THEN Class(p, i + 3, acc \cup {c \in DOMAIN Rank : Rank[c] >= Rank[Peek(p, i)] /\ Rank[c] <= Rank[Peek(p, i + 2)]})
  ELSE Class(p, i + 1, acc \cup {Peek(p, i)})

RECURSIVE Number(_, _, _)
Number(p, i, n) == IF Peek(p, i) \in Digits
                   THEN Number(p, i + 1, 10 * n + (CHOOSE d \in 0..9 : At(DigitText, d + 1) = Peek(p, i)))
                   ELSE <<n, i>>
\* behind an atom t that ends before i: its quantifier
Lazy(p, i) == IF Peek(p, i) = "?" THEN i + 1 ELSE i
Quantified(p, i, t) ==
  CASE Peek(p, i) = "*" -> <<Rep(t, 0, Many), Lazy(p, i + 1)>>
    [] Peek(p, i) = "+" -> <<Rep(t, 1, Many), Lazy(p, i + 1)>>
    [] Peek(p, i) = "?" -> <<Rep(t, 0, 1), Lazy(p, i + 1)>>
    [] Peek(p, i) = "{" -> LET lo == Number(p, i + 1, 0)
                             hi == IF Peek(p, lo[2]) # "," THEN lo
                                   ELSE IF Peek(p, lo[2] + 1) = "}" THEN <<Many, lo[2] + 1>>
                                   ELSE Number(p, lo[2] + 1, 0)
                         IN <<Rep(t, lo[1], hi[1]), Lazy(p, hi[2] + 1)>>
    [] OTHER -> <<t, i>>

RECURSIVE ParseAlt(_, _, _, _)
RECURSIVE ParseAtom(_, _)
ParseAtom(p, i) ==
  CASE Peek(p, i) = "(" -> LET r == ParseAlt(p, IF Peek(p, i + 1) = "?" THEN i + 3 ELSE i + 1, <<>>, <<>>)
                         IN <<r[1], r[2] + 1>>
    [] Peek(p, i) = "[" -> LET neg == Peek(p, i + 1) = "^"
                             r == Class(p, IF neg THEN i + 2 ELSE i + 1, {})
                         IN <<Chr(r[1], neg), r[2]>>
    [] Peek(p, i) = "." -> <<Chr({"\n"}, TRUE), i + 1>>
    [] Peek(p, i) = "^" -> <<Node("begin", <<>>), i + 1>>
    [] Peek(p, i) = "$" -> <<Node("end", <<>>), i + 1>>
    [] Peek(p, i) = "\\" -> <<CASE Peek(p, i + 1) = "A" -> Node("begin", <<>>)
                              [] Peek(p, i + 1) = "z" -> Node("end", <<>>)
                              [] Peek(p, i + 1) = "b" -> Node("edge", <<>>)
                              [] OTHER -> ClassOf(Peek(p, i + 1)), i + 2>>
    [] OTHER -> <<Chr({Peek(p, i)}, FALSE), i + 1>>
\* alts: finished alternatives; seq: the open one
ParseAlt(p, i, alts, seq) ==
  IF i > Len(p) \/ Peek(p, i) = ")" THEN <<Node("alt", Append(alts, Node("seq", seq))), i>>
  ELSE IF Peek(p, i) = "|" THEN ParseAlt(p, i + 1, Append(alts, Node("seq", seq)), <<>>)
  ELSE LET a == ParseAtom(p, i)
           q == Quantified(p, a[2], a[1])
       IN ParseAlt(p, q[2], alts, Append(seq, q[1]))

InSet(t, c, ci) == \/ c \in t.set
                   \/ ci /\ \E x \in t.set : ToLower(x) = ToLower(c)
WordAt(s, i) == i >= 1 /\ i <= Len(s) /\ At(s, i) \in WordChars
\* where matches that start in S may end
RECURSIVE Ends(_, _, _, _)
RECURSIVE EndsSeq(_, _, _, _, _)
RECURSIVE Times(_, _, _, _, _)
RECURSIVE Further(_, _, _, _, _, _)
EndsSeq(ts, k, s, S, ci) == IF k > Len(ts) \/ S = {} THEN S ELSE EndsSeq(ts, k + 1, s, TLCEval(Ends(ts[k], s, S, ci)), ci)
Times(t, s, S, n, ci) == IF n = 0 \/ S = {} THEN S ELSE Times(t, s, TLCEval(Ends(t, s, S, ci)), n - 1, ci)
\* up to n times more; new: what was reached last
Further(t, s, S, new, n, ci) ==
  IF n = 0 \/ new = {} THEN S
  ELSE LET more == TLCEval(Ends(t, s, new, ci) \ S) IN Further(t, s, TLCEval(S \cup more), more, n - 1, ci)
Ends(t, s, S, ci) ==
  CASE t.k = "chr" -> {i + 1 : i \in {j \in S : j <= Len(s) /\ InSet(t, At(s, j), ci) # t.neg}}
    [] t.k = "begin" -> S \cap {1}
    [] t.k = "end" -> {i \in S : i > Len(s)}
    [] t.k = "edge" -> {i \in S : WordAt(s, i - 1) # WordAt(s, i)}
    [] t.k = "alt" -> UNION {Ends(t.ts[k], s, S, ci) : k \in DOMAIN t.ts}
    [] t.k = "seq" -> EndsSeq(t.ts, 1, s, S, ci)
    [] t.k = "rep" -> LET least == TLCEval(Times(t.ts[1], s, S, t.lo, ci)) IN Further(t.ts[1], s, least, least, t.hi - t.lo, ci)

CompiledDef(p) == IF StartsWith(p, "(?i)") THEN <<ParseAlt(p, 5, <<>>, <<>>)[1], TRUE>>
               ELSE <<ParseAlt(p, 1, <<>>, <<>>)[1], FALSE>>
\* Tables.tla replaces this by a lookup in a table of the same function.
Compiled(p) == CompiledDef(p)
Match(p, s) == LET t == Compiled(p) IN Ends(t[1], s, {1}, t[2]) # {}
=============================================================================
