------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session with the library: shared objects, and calls on them in any    *)
(* order.  Every call is a function of the current versions of what it     *)
(* reads; only the two calls that set a Thevenin voltage of circuit c2     *)
(* make a new version of something (each overwrites what the other set).   *)
(* "defaults" stands for everything the package itself holds.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Objects == {"raw", "c1", "c2", "rp", "rd", "dc", "pd", "vj", "defaults"}

Catalogue == [
    new_polynomial |-> {"defaults"}, new_polynomial_fast |-> {"defaults"}, new_exponential |-> {"defaults"},
    new_perfect |-> {"defaults"}, new_from_data |-> {"defaults", "raw"}, new_from_data_limit |-> {"defaults", "raw"},
    new_from_grid |-> {"defaults", "raw"}, evaluate |-> {"rp", "rd", "raw"},
    balance |-> {"c1", "rp"}, balance_restart |-> {"c1", "rp", "vj"}, balance_mask |-> {"c1", "rp"},
    balance_two |-> {"c2", "rp"}, balance_check |-> {"c1", "rp", "vj"},
    currents |-> {"c1", "rp", "vj"}, current_dc |-> {"c1", "rd", "vj"},
    currents_two |-> {"c2", "rp", "vj"}, currents_matrix |-> {"c2", "rp", "vj"},
    response_matrix |-> {"c2", "rp"}, phase_factors |-> {"c2", "vj"},
    set_power |-> {"c2"}, set_drive |-> {"c2"}, read_power |-> {"c2"}, describe |-> {"c1", "c2"},
    lock_cycle |-> {"c1"}, save_and_read |-> {"c2"},
    new_dcdata |-> {"raw", "defaults"}, new_dcdata_if |-> {"raw", "defaults"},
    new_pumped |-> {"raw", "dc", "defaults"}, new_pumped_if |-> {"raw", "dc", "defaults"},
    recover_impedance |-> {"raw", "dc", "defaults"},
    import_dc |-> {"raw", "defaults"}, import_pumped |-> {"raw", "dc", "defaults"},
    import_if |-> {"raw", "dc", "defaults"}, import_dc_if |-> {"raw", "dc", "defaults"},
    spectrum |-> {"raw", "defaults"}, cleaning |-> {"raw"}, filters |-> {"raw"}, transforms |-> {"raw"},
    models |-> {"raw"}, plots |-> {"dc", "pd", "rp", "rd"}, reports |-> {"dc", "rp"},
    (* twins: one argument changed *)
    new_polynomial_51 |-> {"defaults"}, new_polynomial_smear |-> {"defaults"}, new_exponential_rn |-> {"defaults"},
    new_perfect_wider |-> {"defaults"}, new_from_data_other |-> {"defaults", "raw"},
    new_from_grid_other |-> {"defaults", "raw"}, new_from_grid_padded |-> {"defaults", "raw"},
    evaluate_elsewhere |-> {"rp", "rd", "raw"},
    balance_impedance |-> {"c1", "rp"}, balance_response |-> {"c1", "rd"}, balance_terms |-> {"c1", "rp"}, balance_damped |-> {"c1", "rp"},
    currents_voltage |-> {"c1", "rp", "vj"}, currents_response |-> {"c1", "rd", "vj"}, currents_bias |-> {"c1", "rp", "vj"},
    currents_terms |-> {"c1", "rp", "vj"}, currents_order |-> {"c2", "rp", "vj"},
    response_matrix_other |-> {"c2", "rd"}, phase_factors_other |-> {"c2", "vj"},
    new_dcdata_series |-> {"raw", "defaults"}, new_dcdata_other |-> {"raw", "defaults"}, new_pumped_other |-> {"raw", "dc", "defaults"},
    recover_forced |-> {"raw", "dc", "defaults"}, recover_narrow |-> {"raw", "dc", "defaults"},
    import_if_warmer |-> {"raw", "dc", "defaults"}, spectrum_default |-> {"raw", "defaults"},
    filters_other |-> {"raw"}, transforms_other |-> {"raw"}, models_other |-> {"raw"}]
Calls == DOMAIN Catalogue
Reads(c) == Catalogue[c]
Writes(c) == IF c \in {"set_power", "set_drive"} THEN {"c2"} ELSE {}

(* versions: object -> the call that made it ("new" at first) *)
Fresh == [x \in Objects |-> "new"]
After(ver, c) == [x \in Objects |-> IF x \in Writes(c) THEN c ELSE ver[x]]
(* what a call's result is a function of *)
Term(ver, c) == <<c, [x \in Reads(c) |-> ver[x]]>>
=============================================================================
