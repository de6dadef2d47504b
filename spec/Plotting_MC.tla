---------------------------- MODULE Plotting_MC ----------------------------
(***************************************************************************)
(* A session of plotting calls on objects with or without IF data and a    *)
(* recovered circuit, folders given or not.  Checked: files never vanish,  *)
(* what is in a file is the kind its name says, however calls are mixed;   *)
(* figures left open are exactly those the user asked for on screen;       *)
(* two batches of one object put nothing into one file (names distinct).   *)
(***************************************************************************)
EXTENDS Plotting, TLC

CONSTANT MaxCalls
Freqs == {"230.2", "340.0"}
Kinds == {"iv", "ivif", "err_surf"}
Layouts == {"default", "flat"}
VARIABLES calls, open, wanted, files    \* files: set of <<path, kind, owner>>
vars == <<calls, open, wanted, files>>

Path(layout, t) == IF layout = "flat" THEN t[2] ELSE Folder(t[1]) \o "/" \o t[2]
Put(fs, new) == {f \in fs : ~\E n \in new : n[1] = f[1]} \cup new

Init == calls = 0 /\ open = 0 /\ wanted = 0 /\ files = {}
Draw(kind, via) ==
    /\ open' = open + Opened(via)
    /\ wanted' = wanted + (IF Returned(via) = "axes" /\ via # "axes" THEN 1 ELSE 0)
    /\ files' = Put(files, {<<n, kind, "user">> : n \in Written(via, "my-" \o kind)})
DCBatch(layout, hasif) ==
    /\ files' = Put(files, {<<Path(layout, t), t[3], "dc">> : t \in DCAll(hasif)})
    /\ UNCHANGED <<open, wanted>>
PumpedBatch(layout, freq, hasif, haszt) ==
    /\ files' = Put(files, {<<Path(layout, t), t[3], freq>> : t \in PumpedAll(freq, hasif, haszt)})
    /\ UNCHANGED <<open, wanted>>
Next == /\ calls < MaxCalls
        /\ calls' = calls + 1
        /\ \/ \E k \in Kinds, v \in Vias : Draw(k, v)
           \/ \E l \in Layouts, b \in BOOLEAN : DCBatch(l, b)
           \/ \E l \in Layouts, f \in Freqs, b, c \in BOOLEAN : PumpedBatch(l, f, b, c)
Spec == Init /\ [][Next]_vars

OneContent == \A f, g \in files : f[1] = g[1] => f = g
OpenIsWanted == open = wanted
NothingLost == [][\A f \in files : \E g \in files' : g[1] = f[1] /\ g[2] = f[2] /\ g[3] = f[3]]_vars
BatchComplete == \A f \in files : f[2] = "err_surf" /\ f[3] # "user" =>
                    \E g \in files : g[2] = "simulated" /\ g[3] = f[3]
TopicsHaveFolders == \A hi, hz \in BOOLEAN : \A t \in PumpedAll("f", hi, hz) \cup DCAll(hi) : Folder(t[1]) \in ResultFolders
=============================================================================
