----------------------------- MODULE Search_MC -----------------------------
(***************************************************************************)
(* Search on all targets and all admissible first guesses, and the claim   *)
(* about the first guess: on a step where the current grows at most        *)
(* quadratically with the drive level a (between a^2 and a, as fractions   *)
(* of the largest level), the interpolated guess is never off by more than *)
(* half the largest level, which is what Bracketed needs of it.            *)
(***************************************************************************)
EXTENDS Search
(* a = m/M of the largest level; the guess is any value between a^2 and a *)
GuessClose == LET M == 64 IN \A m \in 0..M : \A g \in (m * m)..(m * M) : 2 * (m * M - g) <= M * M
ASSUME GuessClose
=============================================================================
