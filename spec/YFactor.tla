------------------------------ MODULE YFactor -------------------------------
(***************************************************************************)
(* What hot and cold powers say about a receiver, over an abstract field.  *)
(* YFactor_MC checks the theorems with exact rationals; ImportTrace        *)
(* instantiates the same definitions over doubles.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Sub(_, _), Mul(_, _), Div(_, _), One

Ratio(hot, cold) == Div(hot, cold)
Noise(th, tc, y) == Div(Sub(th, Mul(tc, y)), Sub(y, One))
Gain(hot, cold, th, tc) == Div(Sub(hot, cold), Sub(th, tc))
(* shot noise rises by rate per unit of bias: from a slope in arbitrary     *)
(* units to the factor that makes powers temperatures                      *)
Calibration(rate, slope) == Div(rate, slope)

(* The best of a sequence: a position nothing beats.                       *)
IsBest(s, b, Beats(_, _)) == b \in 1..Len(s) /\ \A k \in 1..Len(s) : ~Beats(s[k], s[b])
=============================================================================
