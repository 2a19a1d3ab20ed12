-------------------------------- MODULE Dump --------------------------------
(* Writes the universe of a property, for the machine and the real program. *)
EXTENDS Universe, SequencesExt, Json, IOUtils
Deep == IOEnv.DEEP = "1"
\* every schema of the pool with every other spelling, in some contexts
SpellingCases ==
  LET vs == SetToSeq(SpellPool(Deep))
      calls == SpellCalls(Deep)
      Around(v, w) == <<<<InReq(v), InReq(w)>>>>
                      \o (IF Deep \/ v \in Lesser THEN <<<<v, w>>, <<InOpt(ArrOf(v)), InOpt(ArrOf(w))>>, <<MapOf(InTup(v)), MapOf(InTup(w))>>, <<InOne(v), InOne(w)>>>>
                          ELSE <<>>)
      pairs == FlattenSeq([i \in DOMAIN vs |-> LET ws == SetToSeq(Respelt(vs[i])) IN FlattenSeq([k \in DOMAIN ws |-> Around(vs[i], ws[k])])])
  IN [i \in DOMAIN pairs |-> ("id" :> "u" \o NatText(i)) @@ Case("same", pairs[i], calls)]
Cases == IF IOEnv.PROP = "C30" THEN SpellingCases
         ELSE LET s == SetToSeq(U(IOEnv.PROP, Deep)) IN [i \in DOMAIN s |-> ("id" :> "u" \o NatText(i)) @@ s[i]]
ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
VARIABLE done
Init == done = FALSE
Next == UNCHANGED done
=============================================================================
