------------------------------ MODULE Cleaning ------------------------------
(***************************************************************************)
(* Cleaning of sampled data.  A sample is a sequence of column values; the *)
(* value type is abstract: Lt is its order, Missing tells a missing value. *)
(* The three stages are specified by what their results may be, since a    *)
(* sort need not be stable: the specification is nondeterministic exactly  *)
(* there, and deterministic everywhere else.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Lt(_, _), Missing(_)

Pos(s) == 1..Len(s)
Eq(a, b) == ~Lt(a, b) /\ ~Lt(b, a)

(* the subsequence of complete samples, in order *)
Complete(s) == SelectSeq(s, LAMBDA r : \A c \in DOMAIN r : ~Missing(r[c]))

Sorted(s, c) == \A k \in 1..(Len(s) - 1) : ~Lt(s[k + 1][c], s[k][c])
Increasing(s, c) == \A k \in 1..(Len(s) - 1) : Lt(s[k][c], s[k + 1][c])
Count(s, r) == Cardinality({k \in Pos(s) : s[k] = r})
Permuted(s, t) == Len(s) = Len(t) /\ \A k \in Pos(s) : Count(s, s[k]) = Count(t, s[k])

(* t is a possible result of sorting s by column c *)
IsSortOf(t, s, c) == Sorted(t, c) /\ Permuted(s, t)

(* of each run of equal values the first sample stays *)
FirstOfRuns(s, c) == LET at == TLCEval(SelectSeq([k \in Pos(s) |-> k], LAMBDA k : k = 1 \/ ~Eq(s[k - 1][c], s[k][c])))
                     IN  [j \in Pos(at) |-> s[at[j]]]

(* t is a possible result of cleaning s by column c *)
IsCleanOf(t, s, c) ==
    LET full == Complete(s)
    IN  /\ Increasing(t, c)
        /\ \A k \in Pos(t) : \E j \in Pos(full) : full[j] = t[k]
        /\ \A j \in Pos(full) : \E k \in Pos(t) : Eq(t[k][c], full[j][c])
=============================================================================
