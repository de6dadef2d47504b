----------------------------- MODULE Options_MC -----------------------------
(***************************************************************************)
(* A caller composes a call, giving and withdrawing options one by one.    *)
(*  - giving an option its default changes no meaning,                     *)
(*  - giving any option changes the meaning of that option only,           *)
(*  - the meaning does not depend on the order options are given in,       *)
(*  - a call and its rewritten form mean the same.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Steps
Def == [plain |-> [a |-> "1", b |-> "None"], range |-> [r |-> "(0,1)", n |-> "5"]]
Old == [range |-> {[old |-> {<<"lo", "2">>, <<"hi", "3">>}, new |-> {<<"r", "(2,3)">>}], [old |-> {<<"r", "4">>}, new |-> {<<"r", "(-4,4)">>}]}]
Literals == [a |-> {"1", "2"}, b |-> {"None", "7"}, r |-> {"(0,1)", "4", "(2,3)"}, n |-> {"5", "6"}, lo |-> {"2"}, hi |-> {"3"}]
Names(k) == IF k = "plain" THEN {"a", "b"} ELSE {"r", "n", "lo", "hi"}
O == INSTANCE Options WITH Default <- Def, Older <- Old

VARIABLES kind, given, trail
vars == <<kind, given, trail>>
Init == kind \in {"plain", "range"} /\ given = <<>> /\ trail = <<>>
With(g, o, x) == [p \in DOMAIN g \cup {o} |-> IF p = o THEN x ELSE g[p]]
Without(g, o) == [p \in DOMAIN g \ {o} |-> g[p]]
(* the pair of older names is given as a whole, and not next to the new name *)
Conflict(g, o) == (o = "r" /\ "lo" \in DOMAIN g) \/ (o \in {"lo", "hi"} /\ "r" \in DOMAIN g)
Give == \E o \in Names(kind) : \E x \in Literals[o] :
          /\ Len(trail) < Steps /\ ~Conflict(given, o)
          /\ given' = IF o \in {"lo", "hi"} THEN With(With(given, "lo", "2"), "hi", "3") ELSE With(given, o, x)
          /\ trail' = Append(trail, <<o, x>>) /\ UNCHANGED kind
Withdraw == \E o \in DOMAIN given : Len(trail) < Steps /\ o \notin {"lo", "hi"} /\ given' = Without(given, o)
             /\ trail' = Append(trail, <<o>>) /\ UNCHANGED kind
Next == Give \/ Withdraw
Spec == Init /\ [][Next]_vars
Meaning(g) == O!Completed(kind, g)
Total == DOMAIN Meaning(given) = DOMAIN Def[kind]
DefaultIsNothing == \A o \in DOMAIN Def[kind] : o \notin DOMAIN given /\ ~Conflict(given, o) => Meaning(With(given, o, Def[kind][o])) = Meaning(given)
Rewritten == Meaning(O!Modern(kind, given)) = Meaning(given) /\ O!Modern(kind, O!Modern(kind, given)) = O!Modern(kind, given)
OnlyThat == [][\A o \in DOMAIN Def[kind] :
                 O!Completed(kind, given)[o] # O!Completed(kind, given')[o] => Head(Append(trail', <<"">>)[Len(trail')]) \in {o, "lo", "hi"}]_vars
=============================================================================
