------------------------------ MODULE Plotting ------------------------------
(***************************************************************************)
(* What a plotting call does to the world: the figures the user has open   *)
(* and the files in the results folder.  A call draws one figure           *)
(*   "new"  - on a figure of its own, left open and returned;              *)
(*   "axes" - on the axes it is given, which are returned;                 *)
(*   "file" - into a file, the figure closed again and nothing returned.   *)
(* plot_all draws every figure the object has data for, each into a file.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Vias == {"new", "axes", "file"}
Opened(via) == IF via = "new" THEN 1 ELSE 0
Returned(via) == IF via = "file" THEN "none" ELSE "axes"
Written(via, name) == IF via = "file" THEN {name} ELSE {}

(* The figures plot_all makes: <<folder, name>>, the folder by topic.      *)
DCAll(hasif) == {<<"dc", "dciv.png", "dciv">>} \cup (IF hasif THEN {<<"dc", "dcif.png", "if_noise">>} ELSE {})
PumpedAll(freq, hasif, haszt) ==
    {<<"Pumped IV curve", freq \o "-iv.png", "iv">>}
    \cup (IF hasif THEN {<<"IV + IF", freq \o "-iv-if.png", "ivif">>, <<"Noise temperature", freq \o "-tn.png", "noise_temp">>} ELSE {})
    \cup (IF haszt THEN {<<"Impedance recovery", freq \o "-err-surf.png", "err_surf">>,
                         <<"Impedance recovery (sim)", freq \o "-sim.png", "simulated">>} ELSE {})

Folder(topic) == CASE topic = "dc" -> "dciv" [] topic = "Pumped IV curve" -> "iv-curves" [] topic = "IV + IF" -> "iv-if"
                   [] topic = "Impedance recovery" -> "impedance" [] topic = "Impedance recovery (sim)" -> "impedance-sim"
                   [] topic = "Noise temperature" -> "noise-temp"
ResultFolders == {"dciv", "iv-curves", "iv-if", "impedance", "impedance-sim", "if-noise", "noise-temp", "if-spectrum", "overall-results", "csv"}
=============================================================================
