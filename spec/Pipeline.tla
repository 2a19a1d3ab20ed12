------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The conversion as a state machine: one action per pass, each with the   *)
(* tree as it leaves the pass.  Run is the composition of the actions.     *)
(***************************************************************************)
EXTENDS Emit

\* r: cast/drop/panic; nc: normalize case; fn: force nullable; ts: tuple struct;
\* mw: maps without value; rx: JSON path regex, <<>> or <<regex>>
Effective(v, ctx) == IF IsObj(v) /\ MetaRegex(v) # <<>> THEN [ctx EXCEPT !.rx = MetaRegex(v)] ELSE ctx

\* --- the passes shared by both targets
Front(v, ctx, p) ==
  IF ~Accepted(v) THEN ErrNode
  ELSE LET n == Build(v, ctx.ts, p)
       IN IF IsErr(n) THEN ErrNode ELSE InferNull(InferName(n, ctx.nc), ctx.fn)

\* --- Avro: collapse once, name the tree from "root", settle nullability
AvroTree(n, ctx) ==
  LET c == Collapse(n) IN
  IF IsErr(c) THEN ErrNode
  ELSE InferNull(InferName([c EXCEPT !.nm = "root"], ctx.nc), ctx.fn)
\* --- BigQuery: the same with a nameless root
BqTree(n, ctx) ==
  LET c == Collapse(n) IN
  IF IsErr(c) THEN ErrNode ELSE InferNull(InferName(c, ctx.nc), ctx.fn)

RunP(v, target, ctx0, p) ==
  LET ctx == Effective(v, ctx0)
      n == Front(v, ctx, p)
  IN IF IsErr(n) THEN Failed
     ELSE IF target = "avro"
          THEN LET t == AvroTree(n, ctx) IN IF IsErr(t) THEN Failed ELSE AvroRoot(t, ctx)
          ELSE LET t == BqTree(n, ctx) IN IF IsErr(t) THEN Failed ELSE BqRoot(t, ctx)
Run(v, target, ctx) == RunP(v, target, ctx, 0)
=============================================================================
