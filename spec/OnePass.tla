------------------------------ MODULE OnePass -------------------------------
(***************************************************************************)
(* Which samples of a recorded sweep make up one pass over the voltage     *)
(* range: those recorded while the voltage moved away from where it began. *)
(* v is the sequence of voltages in the order they were recorded; the      *)
(* result is a sequence of positions.  The value type is abstract.         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Lt(_, _), Dist(_, _)

RECURSIVE Best(_, _, _, _)
(* first position in i..hi that nothing in the range beats *)
Best(Beats(_, _), best, i, hi) ==
    IF i > hi THEN best ELSE Best(Beats, IF Beats(i, best) THEN i ELSE best, i + 1, hi)
FirstMin(v) == Best(LAMBDA a, b : Lt(v[a], v[b]), 1, 2, Len(v))
FirstMax(v) == Best(LAMBDA a, b : Lt(v[b], v[a]), 1, 2, Len(v))
(* where the sweep passes its starting voltage again, between a and b *)
Back(v, a, b) == Best(LAMBDA i, j : Lt(Dist(v[i], v[1]), Dist(v[j], v[1])), a, a + 1, b)

UpTo(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
DownFrom(b, a) == [k \in 1..(b - a + 1) |-> b - k + 1]

(* the pass when lo and hi are taken as the positions of the extremes and   *)
(* Choose(a, b) as the position between a and b where the sweep comes back  *)
PassVia(v, lo, hi, Choose(_, _)) ==
    IF lo = 1 /\ hi = Len(v) THEN UpTo(1, Len(v))
    ELSE IF hi = 1 /\ lo = Len(v) THEN DownFrom(Len(v), 1)
    ELSE IF hi < lo THEN DownFrom(lo, Choose(hi, lo)) \o UpTo(1, hi)
    ELSE DownFrom(lo, 1) \o UpTo(Choose(lo, hi), hi)
Pass(v) == PassVia(v, FirstMin(v), FirstMax(v), LAMBDA a, b : Back(v, a, b))

(* A sweep may visit its extremes, or its start, more than once; which      *)
(* visit is taken is not part of the contract: every pass it could be.      *)
ArgMins(v) == {k \in 1..Len(v) : \A j \in 1..Len(v) : ~Lt(v[j], v[k])}
ArgMaxs(v) == {k \in 1..Len(v) : \A j \in 1..Len(v) : ~Lt(v[k], v[j])}
Backs(v, a, b) == {k \in a..b : \A j \in a..b : ~Lt(Dist(v[j], v[1]), Dist(v[k], v[1]))}
Passes(v) == UNION {UNION {{PassVia(v, lo, hi, LAMBDA a, b : k) :
                               k \in Backs(v, IF hi < lo THEN hi ELSE lo, IF hi < lo THEN lo ELSE hi)}
                           : lo \in ArgMins(v)} : hi \in ArgMaxs(v)}
=============================================================================
