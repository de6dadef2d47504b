---------------------------- MODULE Options_gen -----------------------------
(* Writes down, for the harness, the options of every kind of call and the  *)
(* calls that have to be tried.                                             *)
EXTENDS OptionTable, Json, SequencesExt
Pairs(f) == [j \in 1..Cardinality(DOMAIN f) |-> LET s == SetToSeq(DOMAIN f) IN <<s[j], f[s[j]]>>]
VARIABLE kind
Init == kind \in DOMAIN Table
Next == UNCHANGED kind
Emit == PrintT("HIST|" \o ToJson([kind |-> kind, placed |-> kind \in Placed,
            options |-> [j \in 1..Len(Table[kind]) |-> <<Table[kind][j].o, Table[kind][j].d, Table[kind][j].x>>],
            calls |-> LET s == SetToSeq(Required(kind)) IN [j \in 1..Len(s) |-> Pairs(s[j])]]))
Known == \A c \in Required(kind) : DOMAIN Completed(kind, c) = Names(kind)
Told == \A d \in Differ(kind) : Completed(kind, d[1]) # Completed(kind, d[2])
Spec == Init /\ [][Next]_kind
=============================================================================
