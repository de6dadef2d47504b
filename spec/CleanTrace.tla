----------------------------- MODULE CleanTrace -----------------------------
(* Judges recorded calls of qmix.exp.clean_data (E01).  Samples are pairs  *)
(* of doubles; a missing value is NaN.                                     *)
EXTENDS Rec, Verdict
CL == INSTANCE Cleaning WITH Lt <- FLt, Missing <- FIsNaN

Pairs(x, y) == TLCEval([k \in 1..Len(x) |-> <<x[k], y[k]>>])
(* a result: a pair of equally long arrays, or a two-column matrix *)
OKPair(o) == /\ o.ok /\ o.x.ok /\ o.y.ok /\ o.x.kind = "f" /\ o.y.kind = "f"
             /\ Len(o.x.shape) = 1 /\ o.x.shape = o.y.shape
Of(o) == Pairs(o.x.v, o.y.v)

(* results of the same calls on two arrays and on a matrix must agree up   *)
(* to the order the sort leaves equal values in                            *)
CleanFails(r) ==
    LET s == Pairs(r.x, r.y)
        full == TLCEval(CL!Complete(s))
        c == r.col + 1
    IN  Clause("inputs-unchanged", r.same) \cup
    UNION {LET o == r.outs[k] IN
        IF ~OKPair(o) THEN {o.what \o ": failed"}
        ELSE CASE o.what \in {"remove_nans_xy", "remove_nans_matrix"} ->
                    Clause(o.what, Of(o) = full)
               [] o.what \in {"sort_xy", "sort_matrix"} ->
                    Clause(o.what, CL!IsSortOf(Of(o), full, c))
               [] o.what \in {"clean_xy", "clean_matrix"} ->
                    Clause(o.what, CL!IsCleanOf(Of(o), s, 1))
               [] o.what \in {"remove_doubles_xy", "remove_doubles_matrix"} ->
                    Clause(o.what, CL!FirstOfRuns(Pairs(o.sx, o.sy), c) = Of(o))
               [] o.what \in {"again_xy", "again_matrix"} ->
                    Clause(o.what, Of(o) = Pairs(o.sx, o.sy))
               [] o.what \in {"xy_to_matrix", "matrix_to_xy"} -> Clause(o.what, Of(o) = s)
               [] OTHER -> {"unknown-call"} : k \in 1..Len(r.outs)}

UnsortedFails(r) ==
    Clause("unsorted-rejected", ~CL!Sorted(Pairs(r.x, r.y), r.col + 1) => ~r.out.ok)
    \cup Clause("sorted-accepted", CL!Sorted(Pairs(r.x, r.y), r.col + 1) => r.out.ok)

CTFails(r) == CASE r.op = "clean" -> CleanFails(r)
                [] r.op = "unsorted" -> UnsortedFails(r)
                [] r.op = "rejected" -> Clause("rejected", Raised(r.out))
                [] OTHER -> {"unknown-op"}
=============================================================================
