---------------------------- MODULE Session_MC ----------------------------
(***************************************************************************)
(* All sessions of Session up to Depth calls: what a call returns (its     *)
(* term) depends on nothing but the last writer of what it reads.          *)
(* With Emit, prints every ordered pair of calls for replay.               *)
(***************************************************************************)
EXTENDS Session, TLC
CONSTANTS Depth, Emit
VARIABLES hist, ver, results
vars == <<hist, ver, results>>
Init == hist = <<>> /\ ver = Fresh /\ results = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in Calls : /\ hist' = Append(hist, c)
                            /\ ver' = After(ver, c)
                            /\ results' = Append(results, Term(ver, c))
Spec == Init /\ [][Next]_vars
(* the last call before k that writes x *)
LastWriter(k, x) == LET w == {j \in 1..(k - 1) : x \in Writes(hist[j])}
                    IN  IF w = {} THEN "new" ELSE hist[CHOOSE j \in w : \A i \in w : i <= j]
Functional == \A k \in 1..Len(hist) : results[k] = <<hist[k], [x \in Reads(hist[k]) |-> LastWriter(k, x)]>>
Repeatable == \A j, k \in 1..Len(hist) :
    j < k /\ hist[j] = hist[k] /\ (\A i \in j..(k - 1) : Writes(hist[i]) \cap Reads(hist[k]) = {}) => results[j] = results[k]
Versions == \A x \in Objects : ver[x] = LastWriter(Len(hist) + 1, x)
RECURSIVE Quoted(_)
Quoted(s) == IF s = {} THEN "" ELSE LET x == CHOOSE y \in s : TRUE IN
             "'" \o x \o "'" \o (IF Cardinality(s) = 1 THEN "" ELSE ",") \o Quoted(s \ {x})
RECURSIVE Table(_)
Table(s) == IF s = {} THEN "" ELSE LET c == CHOOSE y \in s : TRUE IN
            "'" \o c \o "':[" \o Quoted(Reads(c)) \o "]" \o (IF Cardinality(s) = 1 THEN "" ELSE ",") \o Table(s \ {c})
Complete == (Emit /\ Len(hist) = 2 => PrintT("HIST|" \o hist[1] \o "," \o hist[2]))
            /\ (Emit /\ hist = <<>> => PrintT("READS|{" \o Table(Calls) \o "}"))
=============================================================================
