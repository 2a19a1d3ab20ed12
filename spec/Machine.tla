------------------------------- MODULE Machine ------------------------------
(***************************************************************************)
(* The transpiler as a state machine.  A behaviour takes up one case: a    *)
(* few schemas, each converted under several options, one call after the  *)
(* other.  Within a call there is one action per pass; the order in which  *)
(* the alternatives of patternProperties are met is chosen freely, as it   *)
(* comes from a hash map.  When all calls have returned, the case is       *)
(* judged by the property $PROP.                                           *)
(*                                                                         *)
(* Checked on every state: the passes establish what the later ones rely   *)
(* on, they are idempotent, their composition is the function Run by which *)
(* the real program is judged, and every property follows.                 *)
(***************************************************************************)
EXTENDS Tables

Prop == IOEnv.PROP
VARIABLES mCase, mPart, mCall, mPhase, mTree, mOrder, mOut
vars == <<mCase, mPart, mCall, mPhase, mTree, mOrder, mOut>>

Job == Obs[mCase]
Now == Job.parts[mPart].calls[mCall]
Doc == Job.parts[mPart].schema
Opt0 == Eff(Doc, Now)
Phases == <<"start", "built", "named", "settled", "collapsed", "renamed", "ready", "returned">>

Init == /\ mCase \in DOMAIN Obs /\ mPart = 1 /\ mCall = 1
        /\ mPhase = "start" /\ mTree = ErrNode /\ mOrder = 0 /\ mOut = <<>>

Step(from, to, tree) == /\ mPhase = from /\ mPhase' = to /\ mTree' = tree
                        /\ UNCHANGED <<mCase, mPart, mCall, mOrder, mOut>>
\* A pass gives up by leaving the error node, which every pass leaves alone.
Pass(from, to, tree) == Step(from, to, IF IsErr(mTree) THEN mTree ELSE TLCEval(tree))

HasPatterns(v) == HasNode(v, "union")
Parse == /\ mPhase = "start" /\ mPhase' = "built"
         /\ mOrder' \in IF HasPatterns(Doc) THEN {0, 1} ELSE {0}
         /\ mTree' = IF Accepted(Doc) THEN TLCEval(Build(Doc, Opt0.ts, mOrder')) ELSE ErrNode
         /\ UNCHANGED <<mCase, mPart, mCall, mOut>>
Name == Pass("built", "named", InferName(mTree, Opt0.nc))
Settle == Pass("named", "settled", InferNull(mTree, Opt0.fn))
Merge == Pass("settled", "collapsed", Collapse(mTree))
Rename == Pass("collapsed", "renamed",
               InferName(IF Now.t = "avro" THEN [mTree EXCEPT !.nm = "root"] ELSE mTree, Opt0.nc))
Resettle == Pass("renamed", "ready", InferNull(mTree, Opt0.fn))
Emit == /\ mPhase = "ready" /\ mPhase' = "returned"
        /\ LET out == IF IsErr(mTree) THEN Failed
                      ELSE IF Now.t = "avro" THEN AvroRoot(mTree, Opt0) ELSE BqRoot(mTree, Opt0)
           IN mOut' = <<TLCEval(out)>>
        /\ mTree' = ErrNode /\ UNCHANGED <<mCase, mPart, mCall, mOrder>>
\* the next call of the case, with a fresh tree: nothing is carried over
NextCall == /\ mPhase = "returned"
            /\ mTree' = ErrNode /\ mPhase' = "start" /\ mOrder' = 0 /\ mCase' = mCase /\ mOut' = <<>>
            /\ IF mCall < Len(Job.parts[mPart].calls)
               THEN mCall' = mCall + 1 /\ mPart' = mPart
               ELSE mPart < Len(Job.parts) /\ mPart' = mPart + 1 /\ mCall' = 1
Next == Parse \/ Name \/ Settle \/ Merge \/ Rename \/ Resettle \/ Emit \/ NextCall
Spec == Init /\ [][Next]_vars

(* --- invariants --- *)
RECURSIVE Nodes(_)
Nodes(n) == {n} \cup UNION {Nodes(n.f[x]) : x \in DOMAIN n.f} \cup UNION {Nodes(n.items[i]) : i \in DOMAIN n.items}
Kinds == {"null", "atom", "object", "map", "array", "tuple", "union"}
TypeOK == /\ mPhase \in Range(Phases)
          /\ mPhase \in {"start"} \/ IsErr(mTree) \/ \A n \in Nodes(mTree) : n.k \in Kinds
Alive == ~IsErr(mTree) /\ mPhase # "start"
After(ph) == Alive /\ \E i, j \in DOMAIN Phases : i <= j /\ Phases[i] = ph /\ Phases[j] = mPhase
NoUnions == After("collapsed") => \A n \in Nodes(mTree) : n.k # "union"
NamesLegal == After("named") => \A n \in Nodes(mTree) : \A x \in DOMAIN n.f : IsLegalName(x)
NamesArePaths == After("renamed") =>
  \A n \in Nodes(mTree) : \A x \in DOMAIN n.f :
     n.f[x].nm = x /\ n.f[x].ns = (IF n.ns = "" THEN n.nm ELSE n.ns \o "." \o n.nm)
Settled == After("ready") =>
  \A n \in Nodes(mTree) :
     /\ (n.k = "null" => n.nul)
     /\ (Opt0.fn => n.nul)
     /\ \A x \in DOMAIN n.f : x \notin n.req.s => n.f[x].nul
Idempotent == /\ mPhase = "named" /\ Alive => InferName(mTree, Opt0.nc) = mTree
              /\ mPhase = "collapsed" /\ Alive => Collapse(mTree) = mTree
              /\ mPhase = "renamed" /\ Alive => InferName(mTree, Opt0.nc) = mTree
              /\ mPhase = "ready" /\ Alive => InferNull(mTree, Opt0.fn) = mTree
\* whatever the order of the patterns, the calls return what Run says
ReturnsRun == mPhase = "returned" => mOut[1] = Run(Doc, Now.t, Ctx(Now))
\* a call that converts gives a schema of the target's form
Formed == mPhase = "returned" => LET o == mOut[1] IN o.r \in {"ok", "fail"} /\ (o.r = "ok" => Shaped(Now.t, o.v))

Finished == mPhase = "returned" /\ mPart = Len(Job.parts) /\ mCall = Len(Job.parts[mPart].calls)
Behaviour == [Job EXCEPT !.parts = [i \in DOMAIN @ |-> [@[i] EXCEPT !.calls =
                [k \in DOMAIN @ |-> LET c == Job.parts[i].calls[k] IN [c EXCEPT !.out = Run(Job.parts[i].schema, c.t, Ctx(c))]]]]]
\* the deviation that the specification shares with the program (known-findings.txt)
Known(f) == StartsWith(ToJson(f[3]), "[\"array-of-maps\"")
Property == Finished =>
  LET d == {f \in Fails(Prop, TLCEval(Behaviour)) : ~Known(f)}
  IN d = {} \/ PrintT("SPECFAIL " \o ToJson([id |-> Job.id, fails |-> SeqOfSet(d)])) = FALSE
=============================================================================
