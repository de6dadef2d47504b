------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Drive-level search with halving steps: from a first guess, 15 times:    *)
(* move by the step towards the drive level whose current is the measured  *)
(* one (never below zero), then halve the step.  Levels are integers in    *)
(* units of the last step; Steps of the first is 2^(N-1).                  *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS N, Max                   \* number of steps; largest drive level
VARIABLES target, level, step, left
vars == <<target, level, step, left>>
Abs(x) == IF x < 0 THEN -x ELSE x
First == 2^(N - 1)
Init == /\ target \in 0..Max
        /\ level \in {g \in 0..Max : Abs(g - target) <= 2 * First}     \* what the first guess must provide
        /\ step = First /\ left = N
Move == /\ left > 0
        /\ LET to == IF level > target THEN level - step ELSE IF level < target THEN level + step ELSE level
           IN  level' = IF to < 0 THEN 0 ELSE to
        /\ step' = step \div 2
        /\ left' = left - 1
        /\ UNCHANGED target
Next == Move \/ (left = 0 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Move)
Bracketed == left > 0 => Abs(level - target) <= 2 * step
Found == left = 0 => Abs(level - target) <= 1
Ends == <>(left = 0)
=============================================================================
