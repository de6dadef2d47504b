----------------------------- MODULE OnePass_MC -----------------------------
(***************************************************************************)
(* A sweep is recorded one sample at a time: the voltage moves up or down  *)
(* one step per sample within -Vmax..Vmax (a triangular sweep is a         *)
(* behaviour of it).  When recording stops, the pass is taken.  Checked    *)
(* for every sweep up to the bound:                                        *)
(*  - both extremes of the sweep are in the pass,                          *)
(*  - for triangular sweeps, every voltage of the range is in the pass,    *)
(*    once (the start possibly twice), and every sample was recorded while *)
(*    the voltage moved away from the start,                               *)
(*  - a one-way sweep and its reverse give the same curve.                 *)
(* With Emit every sweep is printed for replay into the real code.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vmax, MaxLen, Turns, Emit
OLt(a, b) == a < b
ODist(a, b) == IF a > b THEN a - b ELSE b - a
P == INSTANCE OnePass WITH Lt <- OLt, Dist <- ODist

VARIABLES sweep, dir, turns, done
vars == <<sweep, dir, turns, done>>
Init == /\ sweep \in {<<x>> : x \in (-Vmax)..Vmax} /\ dir \in {-1, 1} /\ turns = 0 /\ done = FALSE
Last == sweep[Len(sweep)]
Move == /\ ~done /\ Len(sweep) < MaxLen
        /\ (Last + dir) \in (-Vmax)..Vmax
        /\ sweep' = Append(sweep, Last + dir) /\ UNCHANGED <<dir, turns, done>>
Turn == /\ ~done /\ turns < Turns /\ Len(sweep) > 1
        /\ dir' = -dir /\ turns' = turns + 1 /\ UNCHANGED <<sweep, done>>
Stop == ~done /\ Len(sweep) > 2 /\ done' = TRUE /\ UNCHANGED <<sweep, dir, turns>>
Next == Move \/ Turn \/ Stop
Spec == Init /\ [][Next]_vars

pass == P!Pass(sweep)
passes == P!Passes(sweep)
Range(s) == {s[k] : k \in 1..Len(s)}
Volts == Range(sweep)
Lo == CHOOSE x \in Volts : \A y \in Volts : x <= y
Hi == CHOOSE x \in Volts : \A y \in Volts : x >= y
PassPositions == done => pass \in passes /\ \A p \in passes : \A k \in 1..Len(p) : p[k] \in 1..Len(sweep)
Extremes == done => \A p \in passes : {Lo, Hi} \subseteq {sweep[p[k]] : k \in 1..Len(p)}
(* sweeps that turn at the extremes of the range and come back at least to *)
(* where they began                                                        *)
Triangular == \/ turns = 0
              \/ turns = 1 /\ Last = sweep[1]
              \/ turns = 2 /\ Lo < sweep[1] /\ sweep[1] < Hi /\ Lo < Last /\ Last < Hi
OnceEach == done /\ Triangular =>
    /\ {sweep[pass[k]] : k \in 1..Len(pass)} = Lo..Hi
    /\ \A x \in Lo..Hi : Cardinality({k \in 1..Len(pass) : sweep[pass[k]] = x}) <= IF x = sweep[1] THEN 2 ELSE 1
Away == done /\ turns = 2 /\ Triangular => \A k \in 1..Len(pass) :
    LET j == pass[k] IN j = 1 \/ sweep[j] = sweep[1] \/ ODist(sweep[j], sweep[1]) > ODist(sweep[j - 1], sweep[1])
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
DirectionFree == done /\ turns = 0 =>
    LET r == Rev(sweep) q == P!Pass(r) IN
    [k \in 1..Len(pass) |-> sweep[pass[k]]] = [k \in 1..Len(q) |-> r[q[k]]]
    \/ Len(sweep) = 1
EmitSweep == done /\ Emit /\ Lo # Hi => PrintT("HIST|" \o ToJson(sweep))
=============================================================================
