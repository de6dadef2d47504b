------------------------------ MODULE Circuit ------------------------------
(***************************************************************************)
(* The embedding circuit as a state machine.                               *)
(*                                                                         *)
(* Two layers share the same actions:                                      *)
(*   Circuit_MC.tla  - abstract values, all histories up to a bound, also  *)
(*                     the generator of histories replayed into the code;  *)
(*   CircuitTrace.tla - doubles, judging recorded histories.               *)
(* This module holds what they share: which operations change what, and    *)
(* which are refused in which state.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* Operations that write into an array of the circuit, and the array.      *)
Writers == {"put_freq", "put_vt", "put_zt", "put_vb", "slice_freq", "slice_vt", "slice_zt", "slice_vb",
            "inplace_freq", "inplace_vt", "inplace_zt", "inplace_vb",
            "set_freq", "set_alpha", "set_available_power"}
Readers == {"available_power", "current", "save", "print_info", "vph", "str", "initialize_vj"}
Labels  == {"set_name", "label"}     \* name a signal (by method, by assignment); locks do not apply
Others  == {"lock", "unlock", "hb"} \cup Labels
Target(op) == CASE op \in {"put_freq", "slice_freq", "inplace_freq", "set_freq"} -> "freq"
                [] op \in {"put_vt", "slice_vt", "inplace_vt", "set_alpha", "set_available_power"} -> "vt"
                [] op \in {"put_zt", "slice_zt", "inplace_zt"} -> "zt"
                [] op \in {"put_vb", "slice_vb", "inplace_vb"} -> "vb"
                [] OTHER -> "none"
Refused(op, locked) == op \in Writers /\ locked
(* The names are a table [tone][harmonic], counted from zero as the arrays *)
(* are; naming a signal changes that entry alone.                          *)
NamesAfter(op, names, f, p, name) == IF op \in Labels THEN [names EXCEPT ![f + 1][p + 1] = name] ELSE names
LockedAfter(op, locked) == IF op = "lock" THEN TRUE ELSE IF op = "unlock" THEN FALSE ELSE locked
=============================================================================
