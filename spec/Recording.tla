----------------------------- MODULE Recording ------------------------------
(***************************************************************************)
(* From samples as recorded to a curve: complete samples, one pass over    *)
(* the voltage range, sorted, one sample per voltage.  A recording is      *)
(* [v |-> sequence, i |-> sequence]; the number type is abstract.          *)
(* Recording_MC checks what the result does not depend on; Import          *)
(* instantiates the same definitions over doubles.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Lt(_, _), Dist(_, _), Same(_, _), Missing(_)
OP == INSTANCE OnePass

Pick(s, ix) == TLCEval([k \in 1..Len(ix) |-> s[ix[k]]])
At(c, ix) == [v |-> Pick(c.v, ix), i |-> Pick(c.i, ix)]
All(s) == [k \in 1..Len(s) |-> k]
Complete(c) == At(c, SelectSeq(All(c.v), LAMBDA k : ~Missing(c.v[k]) /\ ~Missing(c.i[k])))
OnePass(c) == At(c, OP!Pass(c.v))
Sort(c) == At(c, SortSeq(All(c.v), LAMBDA a, b : Lt(c.v[a], c.v[b])))
Distinct(c) == At(c, SelectSeq(All(c.v), LAMBDA k : IF k = 1 THEN TRUE ELSE ~Same(c.v[k - 1], c.v[k])))
Curve(c) == Distinct(Sort(OnePass(Complete(c))))
=============================================================================
