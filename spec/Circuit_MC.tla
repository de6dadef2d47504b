---------------------------- MODULE Circuit_MC -----------------------------
(***************************************************************************)
(* All histories of circuit operations up to Depth, with abstract array    *)
(* versions: every successful write gives the target array a new version.  *)
(* With Emit = TRUE every complete history is printed as JSON for replay   *)
(* into the real EmbeddingCircuit.                                         *)
(***************************************************************************)
EXTENDS Circuit, TLC, Json
CONSTANTS Depth, Emit
Arrays == {"freq", "vt", "zt", "vb"}
Ops == Writers \cup Readers \cup Others
\* representatives used when histories are emitted (every op occurs)
VARIABLES locked, version, names, hist, lastop, raised
vars == <<locked, version, names, hist, lastop, raised>>
(* one tone, two harmonics; the second operation of a history names the    *)
(* second harmonic, the others the first                                   *)
Signal(k) == IF k = 2 THEN 2 ELSE 1
Init == /\ names = [f \in 1..2 |-> [p \in 1..3 |-> 0]]
        /\ locked = FALSE /\ version = [a \in Arrays |-> 0] /\ hist = <<>>
        /\ lastop = "none" /\ raised = FALSE
Do(op) ==
    /\ Len(hist) < Depth
    /\ hist' = Append(hist, op) /\ lastop' = op
    /\ locked' = LockedAfter(op, locked)
    /\ raised' = Refused(op, locked)
    /\ names' = NamesAfter(op, names, 1, Signal(Len(hist) + 1), Len(hist) + 1)
    /\ \/ /\ op \in Writers /\ ~locked
          /\ version' = [version EXCEPT ![Target(op)] = @ + 1]
       \/ /\ ~(op \in Writers /\ ~locked)
          /\ UNCHANGED version
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

TypeOK == locked \in BOOLEAN /\ raised \in BOOLEAN /\ \A a \in Arrays : version[a] \in 0..Depth
LockedNeverChanges == [][locked => version' = version]_vars
WritersRaiseIffLocked == [][lastop' \in Writers => (raised' <=> locked)]_vars
ReadersNeverRaise == lastop \in Readers => ~raised
OnlyTargetChanges == [][\A a \in Arrays : version'[a] # version[a] => a = Target(lastop')]_vars
UnlockRestores == [][lastop' \in Writers /\ ~locked => version' # version]_vars
NamesAreLabels == [][(names' # names <=> lastop' \in Labels) /\ (lastop' \in Labels => version' = version /\ locked' = locked /\ ~raised')]_vars
LastNameStays == \A p \in 1..2 : LET n == names[2][p + 1] IN
    n = 0 \/ (hist[n] \in Labels /\ Signal(n) = p /\ \A k \in (n + 1)..Len(hist) : hist[k] \in Labels => Signal(k) # p)
Complete == Len(hist) = Depth /\ Emit => PrintT("HIST|" \o ToJson(hist))
=============================================================================
