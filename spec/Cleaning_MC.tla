---------------------------- MODULE Cleaning_MC -----------------------------
(***************************************************************************)
(* Cleaning as a state machine: raw -> complete -> sorted -> cleaned, for  *)
(* every input of up to Len samples over a small domain.  The sort step is *)
(* one exchange of neighbours at a time, in any order (so every sorting    *)
(* algorithm, stable or not, is a behaviour).  Every final state satisfies *)
(* IsCleanOf, and cleaning again changes nothing.                          *)
(* With Emit every input is printed for replay into the real code.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Emit
NaN == 0                                  \* missing value
CLt(a, b) == a < b
CMissing(a) == a = NaN
C == INSTANCE Cleaning WITH Lt <- CLt, Missing <- CMissing
Samples == {<<x, y>> : x \in 0..3, y \in 0..2}
Inputs == UNION {[1..n -> Samples] : n \in 0..MaxLen}

VARIABLES input, s, stage
vars == <<input, s, stage>>
Init == input \in Inputs /\ s = input /\ stage = "raw"
RemoveMissing == stage = "raw" /\ s' = C!Complete(s) /\ stage' = "complete" /\ UNCHANGED input
Swap(k) == [j \in 1..Len(s) |-> IF j = k THEN s[k + 1] ELSE IF j = k + 1 THEN s[k] ELSE s[j]]
Exchange == /\ stage = "complete"
            /\ \E k \in 1..(Len(s) - 1) : ~CLt(s[k][1], s[k + 1][1]) /\ s[k] # s[k + 1] /\ s' = Swap(k)
            /\ UNCHANGED <<input, stage>>
Sorted == stage = "complete" /\ C!Sorted(s, 1) /\ stage' = "sorted" /\ UNCHANGED <<input, s>>
Dedupe == stage = "sorted" /\ s' = C!FirstOfRuns(s, 1) /\ stage' = "clean" /\ UNCHANGED input
Next == RemoveMissing \/ Exchange \/ Sorted \/ Dedupe
Spec == Init /\ [][Next]_vars /\ WF_vars(RemoveMissing) /\ WF_vars(Sorted) /\ WF_vars(Dedupe)

SortCorrect == stage = "sorted" => C!IsSortOf(s, C!Complete(input), 1)
CleanCorrect == stage = "clean" => C!IsCleanOf(s, input, 1)
Idempotent == stage = "clean" => C!Complete(s) = s /\ C!IsSortOf(s, s, 1) /\ C!FirstOfRuns(s, 1) = s
                                 /\ \A t \in {s} : C!IsCleanOf(t, s, 1)
NothingLost == stage = "clean" => \A j \in 1..Len(input) :
                  ~CMissing(input[j][1]) /\ ~CMissing(input[j][2]) => \E k \in 1..Len(s) : s[k][1] = input[j][1]
NoNext == FALSE /\ UNCHANGED vars
EmitInput == stage = "raw" /\ Emit => PrintT("HIST|" \o ToJson(input))
=============================================================================
