---------------------------- MODULE Recording_MC ----------------------------
(***************************************************************************)
(* A device with current = curve[voltage] is recorded: the source goes one *)
(* way, there and back, or from the middle to one end, the other, and back *)
(* to the middle; the meter may drop samples (one missing value) or take a *)
(* sample twice.  Whatever the recording, the same curve comes out:        *)
(* every voltage of the range once, with the device's current.             *)
(*  (Device)   the result is the device's curve                            *)
(*  (Units)    scaling voltages and currents scales the result             *)
(*  (Offset)   shifting them shifts it                                     *)
(*  (Again)    importing the result changes nothing                        *)
(*  (Missing)  incomplete samples leave no trace                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Lo, Hi, Currents, Drops
NaN == 999
ILt(a, b) == a < b
IDist(a, b) == IF a > b THEN a - b ELSE b - a
ISame(a, b) == a = b
IMissing(a) == a = NaN
R == INSTANCE Recording WITH Lt <- ILt, Dist <- IDist, Same <- ISame, Missing <- IMissing

VARIABLES device, rec, legs, drops
vars == <<device, rec, legs, drops>>
UpTo(a, b) == [k \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + k - 1]
DownTo(b, a) == [k \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> b - k + 1]
(* the itinerary of the source, and what is left of it *)
Plans == {UpTo(Lo, Hi), DownTo(Hi, Lo), UpTo(Lo, Hi) \o DownTo(Hi - 1, Lo), DownTo(Hi, Lo) \o UpTo(Lo + 1, Hi)}
         \cup {UpTo(s, Hi) \o DownTo(Hi - 1, Lo) \o UpTo(Lo + 1, s) : s \in (Lo + 1)..(Hi - 1)}
         \cup {DownTo(s, Lo) \o UpTo(Lo + 1, Hi) \o DownTo(Hi - 1, s) : s \in (Lo + 1)..(Hi - 1)}
Init == device \in [Lo..Hi -> Currents] /\ rec = [v |-> <<>>, i |-> <<>>] /\ legs \in Plans /\ drops = 0
Put(x, y) == rec' = [v |-> Append(rec.v, x), i |-> Append(rec.i, y)]
Sample == legs # <<>> /\ Put(Head(legs), device[Head(legs)]) /\ legs' = Tail(legs) /\ UNCHANGED <<device, drops>>
Glitch == /\ legs # <<>> /\ drops < Drops /\ drops' = drops + 1
          /\ \/ Put(NaN, 7) \/ Put(Head(legs), NaN) \/ Put(NaN, NaN) \/ Put(Head(legs), device[Head(legs)])
          /\ UNCHANGED <<device, legs>>
Next == Sample \/ Glitch
Spec == Init /\ [][Next]_vars

Done == legs = <<>>
Wanted == [v |-> UpTo(Lo, Hi), i |-> [k \in 1..(Hi - Lo + 1) |-> device[Lo + k - 1]]]
Map(c, f(_), g(_)) == [v |-> [k \in 1..Len(c.v) |-> IF IMissing(c.v[k]) THEN NaN ELSE f(c.v[k])],
                       i |-> [k \in 1..Len(c.i) |-> IF IMissing(c.i[k]) THEN NaN ELSE g(c.i[k])]]
Device == Done => R!Curve(rec) = Wanted
Units == Done => LET f(a) == 3 * a  g(a) == 2 * a IN R!Curve(Map(rec, f, g)) = Map(Wanted, f, g)
Offset == Done => LET f(a) == a - 5  g(a) == a + 4 IN R!Curve(Map(rec, f, g)) = Map(Wanted, f, g)
Again == Done => R!Curve(R!Curve(rec)) = R!Curve(rec)
MissingLeavesNoTrace == Done => R!Curve(R!Complete(rec)) = R!Curve(rec)
=============================================================================
