------------------------------ MODULE Options -------------------------------
(***************************************************************************)
(* What a call with options left out means.  A call of some kind gives     *)
(* some of its options; its meaning is the call completed by the           *)
(* documented defaults (older forms of an option first rewritten to the    *)
(* documented one).  Values are literals.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Default, Older      \* kind -> (option -> literal);  kind -> (<<option, literal>> ... -> <<option, literal>>)

(* given: a function from some options to literals *)
Modern(kind, given) ==
    LET rules == IF kind \in DOMAIN Older THEN {r \in Older[kind] : \A p \in r.old : p[1] \in DOMAIN given /\ given[p[1]] = p[2]} ELSE {}
        gone == UNION {{p[1] : p \in r.old} : r \in rules}
        new == UNION {r.new : r \in rules}
        names == (DOMAIN given \ gone) \cup {p[1] : p \in new}
    IN  [o \in names |-> IF \E p \in new : p[1] = o THEN (CHOOSE p \in new : p[1] = o)[2] ELSE given[o]]
Completed(kind, given) ==
    LET m == Modern(kind, given) IN [o \in DOMAIN Default[kind] \cup DOMAIN m |-> IF o \in DOMAIN m THEN m[o] ELSE Default[kind][o]]
=============================================================================
