------------------------------- MODULE HB_MC --------------------------------
(***************************************************************************)
(* Exhaustive model of harmonic balance on exactly solvable circuits.      *)
(*                                                                         *)
(* Two signals at two bias points; the deviation e of the junction voltage *)
(* from the solution is an integer per signal and bias, the damped Newton  *)
(* step maps e to e - e / D (D = 1 undamped, 2: half-damped; deviations    *)
(* are multiples of a power of two so that division is exact).  The environment   *)
(* calls the solver repeatedly, starting from any previous result, with    *)
(* any limit; the solver is the loop of the implementation (evaluate,      *)
(* decide, correct) with one action per decision.                          *)
(***************************************************************************)
EXTENDS HB, TLC, FiniteSets

CONSTANTS Signals, Biases, Levels, MaxIt, Tols, Calls, D

QuickLevels == {-16, 0, 32}
DeepLevels == {-1536, -512, 0, 1024}
Slots == Signals \X Biases
VARIABLES pc, e, it, max, tol, guess, out, calls, total, origin
vars == <<pc, e, it, max, tol, guess, out, calls, total, origin>>

Abs(x) == IF x < 0 THEN -x ELSE x
MetPoint(x, t, b) == \A s \in Signals : Abs(x[<<s, b>>]) <= t
Met(x, t) == \A b \in Biases : MetPoint(x, t, b)
Step(x) == [k \in Slots |-> x[k] - x[k] \div D]
RECURSIVE Iterate(_, _)
Iterate(x, n) == IF n = 0 THEN x ELSE Step(Iterate(x, n - 1))

NoOut == [done |-> FALSE]
Init == /\ pc = "idle" /\ e \in [Slots -> Levels] /\ it = 0 /\ max = 0 /\ tol = 0
        /\ guess = e /\ out = NoOut /\ calls = 0 /\ total = 0 /\ origin = e

Call(m, t) == /\ pc = "idle" /\ calls < Calls
              /\ pc' = "evaluate" /\ it' = 0 /\ max' = m /\ tol' = t /\ guess' = e
              /\ calls' = calls + 1 /\ out' = NoOut
              /\ UNCHANGED <<e, total, origin>>
Return(f) == /\ out' = [done |-> TRUE, flag |-> f, it |-> it, v |-> e,
                        mask |-> [b \in Biases |-> MetPoint(e, tol, b)]]
             /\ pc' = "idle" /\ total' = total + it
             /\ UNCHANGED <<e, it, max, tol, guess, calls, origin>>
Succeed == pc = "evaluate" /\ Met(e, tol) /\ Return(TRUE)
GiveUp == pc = "evaluate" /\ ~Met(e, tol) /\ it = max /\ Return(FALSE)
Correct == /\ pc = "evaluate" /\ ~Met(e, tol) /\ it < max
           /\ e' = Step(e) /\ it' = it + 1
           /\ UNCHANGED <<pc, max, tol, guess, out, calls, total, origin>>
Next == (\E m \in 0..MaxIt, t \in Tols : Call(m, t)) \/ Succeed \/ GiveUp \/ Correct
Spec == Init /\ [][Next]_vars /\ WF_vars(Succeed \/ GiveUp \/ Correct)

MetSeq == [n \in 1..(max + 1) |-> Met(Iterate(guess, n - 1), tol)]
(* H02: the reported outcome is the one the shared definitions give.       *)
Truthful == out.done => /\ out.flag = Met(out.v, tol)
                        /\ out.it <= max
                        /\ out.it = Corrections(MetSeq, max)
                        /\ out.flag = Converged(MetSeq, max)
                        /\ out.flag = (\A b \in Biases : out.mask[b])
(* H03: any split of the iteration gives the same iterates; a run is a     *)
(* prefix of every longer run.                                             *)
Resumable == pc = "idle" => e = Iterate(origin, total)
InCall == pc = "evaluate" => e = Iterate(guess, it) /\ it <= max
StopsEarly == pc = "evaluate" => \A n \in 0..(it - 1) : ~Met(Iterate(guess, n), tol)
(* H05: a step multiplies the remaining deviation by 1 - 1/D.              *)
DampingLaw == [][e' # e => \A k \in Slots : D * e'[k] = (D - 1) * e[k]]_vars
Returns == (pc = "evaluate") ~> (pc = "idle")
=============================================================================
