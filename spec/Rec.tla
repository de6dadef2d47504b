-------------------------------- MODULE Rec --------------------------------
(***************************************************************************)
(* Recorded values.  The harness projects whatever a call returned to      *)
(*   [ok |-> TRUE, kind |-> "f"|"c"|"b"|"other", shape |-> .., v |-> flat] *)
(* or, if the call raised, [ok |-> FALSE, exc |-> name].  Verdicts must be *)
(* total: every clause looks at the shape before it looks at a value.      *)
(***************************************************************************)
EXTENDS Complex, FiniteSets, TLC

OKArr(o, kind, shape) == o.ok /\ o.kind = kind /\ o.shape = shape
OKAny(o, shape) == o.ok /\ o.kind \in {"f", "c"} /\ o.shape = shape
Raised(o) == ~o.ok
RaisedAs(o, names) == ~o.ok /\ \E n \in names : o.exc = n

(* element k of a flat numeric array as a complex number *)
AsC(o, k) == IF o.kind = "c" THEN o.v[k] ELSE CR(o.v[k])

Same(o1, o2) == o1.ok /\ o2.ok /\ o1.kind = o2.kind /\ o1.shape = o2.shape /\ o1.v = o2.v
SameOutcome(o1, o2) == IF o1.ok /\ o2.ok THEN Same(o1, o2)
                       ELSE ~o1.ok /\ ~o2.ok /\ o1.exc = o2.exc
CloseArr(o1, o2, rtol, atol) ==
    /\ o1.ok /\ o2.ok /\ o1.shape = o2.shape /\ o1.kind \in {"f", "c"} /\ o2.kind \in {"f", "c"}
    /\ \A k \in 1..Len(o1.v) : CClose(AsC(o1, k), AsC(o2, k), rtol, atol)
FCloseSeq(s, t, rtol, atol) == Len(s) = Len(t) /\ FFirstFar(s, t, rtol, atol) = 0

Clause(name, holds) == IF holds THEN {} ELSE {name}
RTOL9 == FDec(1, -9)
ATOL9 == FDec(1, -9)
RTOL6 == FDec(1, -6)
ATOL6 == FDec(1, -6)
=============================================================================
