------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* The trace-validation frame shared by the record-judging specifications. *)
(* Each line of the trace file is one observed call (or one short history) *)
(* of the implementation; a behaviour picks a line and takes the Judge     *)
(* step, which evaluates every clause of the specification on it.  All     *)
(* lines are judged (initial states fan out over TLC's workers), so one    *)
(* rejected line does not hide the next; the failing line and the names of *)
(* its failing clauses are printed for the harness.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Fails(_)        \* record -> set of names of violated clauses

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES line, verdict
vars == <<line, verdict>>

RECURSIVE Names(_)
Names(s) == IF s = {} THEN "" ELSE LET x == CHOOSE y \in s : TRUE IN x \o ";" \o Names(s \ {x})

Init == line \in 1..Len(Trace) /\ verdict = "unread"
Judge == /\ verdict = "unread"
         /\ LET bad == IF Trace[line].op = "crash" THEN {"no-exception"} ELSE Fails(Trace[line])
            IN  IF bad = {} THEN verdict' = "accepted"
                ELSE PrintT("FAIL|" \o ToString(line) \o "|" \o Names(bad)) /\ verdict' = "rejected"
         /\ UNCHANGED line
Spec == Init /\ [][Judge]_vars
=============================================================================
