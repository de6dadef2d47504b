--------------------------------- MODULE HB ---------------------------------
(***************************************************************************)
(* The damped Newton iteration of harmonic balance, as the user sees it.   *)
(*                                                                         *)
(* A call (guess, max, tol, damp) produces iterates v_0 = guess, v_1, ...; *)
(* it stops at the first iterate that meets the target, or after max       *)
(* corrections.  Met[n + 1] says whether v_n meets the target.  These       *)
(* operators are shared by HB_MC (exhaustive) and HBTrace (real runs).     *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* Number of corrections a call with limit max applies, and its flag.      *)
FirstMet(met, max) == {n \in 0..max : met[n + 1] /\ \A m \in 0..(n - 1) : ~met[m + 1]}
Corrections(met, max) == IF FirstMet(met, max) = {} THEN max
                         ELSE CHOOSE n \in FirstMet(met, max) : TRUE
Converged(met, max) == FirstMet(met, max) # {}
=============================================================================
