---------------------------- MODULE OptionTable -----------------------------
(***************************************************************************)
(* The documented options of every call: name, default, another value and  *)
(* the options that have to be given for the option to matter.  Plain      *)
(* functions list them in the documented order, in which they can be given *)
(* without their names.  Values are literals; "@name" stands for a value   *)
(* the harness makes.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Opt(o, d, x) == [o |-> o, d |-> d, x |-> x, with |-> {}]
OptIn(with, o, d, x) == [o |-> o, d |-> d, x |-> x, with |-> with]
None == "None"
V == Opt("verbose", "True", "False")

RespOpts(dc, kk) ==
    <<V, Opt("max_npts_dc", dc, "41"), Opt("max_npts_kk", kk, "43"), Opt("v_smear", None, "0.03"), Opt("kk_n", "50", "6"),
      Opt("spline_order", "3", "1")>>
Smeared(o, d, x) == OptIn({<<"v_smear", "0.03">>}, o, d, x)
AcceptOpts ==
    <<Opt("check_error", "False", "True"), OptIn({<<"check_error", "True">>}, "max_interp_error", "0.001", "0.00001")>>

(* importing: qmix.exp.parameters *)
Units == <<Opt("v_fmt", "'mV'", "'uV'")>>
IVUnits == Units \o <<Opt("i_fmt", "'mA'", "'uA'"), Opt("vmax", "6e-3", "4.6e-3"), Opt("npts", "6001", "501"),
             Opt("rseries", None, "0.7"), Opt("i_multiplier", "1.", "1.07"), Opt("v_multiplier", "1.", "1.02"),
             Opt("ioffset", None, "1.3e-6"), Opt("voffset", None, "2e-5")>>
Filter == <<Opt("filter_data", "True", "False"), Opt("filter_theta", "0.785", "0.6"), Opt("filter_nwind", "21", "31"), Opt("filter_npoly", "3", "2")>>
DCOpts == <<Opt("voffset_range", "(-1e-3, 1e-3)", "(-4e-4, 3e-4)"), Opt("vrn", "(3.5e-3, 4.5e-3)", "(3.4e-3, 4.1e-3)"),
            Opt("vrsg", "2e-3", "1.6e-3"), Opt("vgap", None, "2.71e-3")>>
IFOpts == <<Opt("v_fmt", "'mV'", "'uV'"), Opt("vmax", "6e-3", "4.6e-3"), Opt("rseries", None, "0.7"), Opt("v_multiplier", "1.", "1.02"),
            Opt("ifdata_npts", "3000", "701"), Opt("ifdata_sigma", "1e-5", "4e-5")>>
Shot == <<Opt("vshot", None, "((4.0e-3, 4.4e-3),)")>>
Loads == <<Opt("t_cold", "78.", "20."), Opt("t_hot", "293.", "350.")>>
Best == <<Opt("vbest", None, "2e-3"), Opt("best_pt", "'Max Gain'", "'Min Tn'")>>
Search == <<Opt("fit_range", "(0.25, 0.8)", "(0.4, 0.7)"), Opt("remb_range", "(0, 1)", "(0.4, 0.9)"),
            Opt("xemb_range", "(-1, 1)", "(-0.4, 0.5)"), Opt("zemb", None, "0.4-0.3j"), Opt("num_b", "20", "3"),
            Opt("alpha_max", "1.5", "0.9")>>

Table == [
  EmbeddingCircuit |-> <<Opt("num_f", "1", "2"), Opt("num_p", "1", "3"), Opt("vb_min", "0", "0.5"), Opt("vb_max", "2", "1.5"),
      Opt("vb_npts", "201", "11"), Opt("fgap", None, "700e9"), Opt("vgap", None, "2.8e-3"), Opt("rn", None, "13.5"), Opt("name", "''", "'mixer'")>>,
  available_power |-> <<Opt("f", "1", "2"), Opt("p", "1", "2"), Opt("units", "'W'", "'dBm'")>>,
  set_available_power |-> <<Opt("f", "1", "2"), Opt("p", "1", "2"), Opt("units", "'W'", "'nW'")>>,
  set_alpha |-> <<Opt("f", "1", "2"), Opt("p", "1", "2"), Opt("zj", "0.66", "0.9")>>,
  set_freq |-> <<Opt("f", "1", "2"), Opt("units", "'Hz'", "'GHz'")>>,
  set_name |-> <<Opt("f", "1", "2"), Opt("p", "1", "2")>>,
  save_info |-> <<Opt("filename", "'embedding-circuit.txt'", "'other.txt'")>>,

  qtcurrent |-> <<Opt("num_b", "15", "6"), V, Opt("resp_matrix", None, "'@matrix'")>>,
  harmonic_balance |-> <<Opt("num_b", "15", "3"), OptIn({<<"damp_coeff", "0.1">>}, "max_it", "10", "3"),
      OptIn({<<"damp_coeff", "0.5">>, <<"max_it", "20">>}, "stop_rerror", "0.001", "0.01"),
      OptIn({<<"max_it", "1">>}, "vj_initial", None, "'@vj'"), Opt("damp_coeff", "1.", "0.7"), Opt("mode", "'o'", "'x'"), V>>,
  check_hb_error |-> <<Opt("num_b", "15", "2"), Opt("stop_rerror", "0.001", "0.01")>>,

  perfect_kk |-> <<Opt("max_kk", "100.", "50.")>>,
  polynomial |-> <<Opt("order", "50", "31")>>,
  exponential |-> <<Opt("vgap", "2.8e-3", "2.5e-3"), Opt("rn", "14.", "10."), Opt("rsg", "300.", "500."), Opt("agap", "4e4", "2e4"),
      Opt("model", "'fixed'", "'original'")>>,
  expanded |-> <<Opt("vgap", "2.8e-3", "2.5e-3"), Opt("rn", "14.", "10."), Opt("rsg", "5e2", "300."), Opt("agap", "4e4", "2e4"),
      Opt("a0", "1e4", "2e4"), Opt("ileak", "5e-6", "8e-6"), Opt("vnot", "2.85e-3", "2.7e-3"), Opt("inot", "1e-5", "2e-5"),
      Opt("anot", "2e4", "1e4"), Opt("ioff", "1e-5", "2e-5")>>,
  gauss_conv |-> <<Opt("sigma", "10", "4.5"), Opt("ext_x", "3", "1")>>,
  slope_span_n |-> <<Opt("n", "11", "5"), Opt("nozeros", "True", "False")>>,
  kk_trans |-> <<Opt("n", "50", "7")>>,
  remove_doubles_xy |-> <<Opt("check", "True", "False")>>,
  sort_matrix |-> <<Opt("col", "0", "1")>>,
  remove_doubles_matrix |-> <<Opt("col", "0", "1"), Opt("check", "True", "False")>>,

  RespFn |-> RespOpts("101", "151"),
  RespFnFromIVData |-> RespOpts("81", "101") \o <<Opt("vlimit", "1.8", "1.3")>>,
  RespFnPerfect |-> <<V, Opt("v_smear", None, "0.03"), Smeared("max_npts_dc", "101", "41"), Smeared("max_npts_kk", "151", "43"),
      Smeared("kk_n", "50", "6"), Smeared("spline_order", "3", "1")>>,
  RespFnPolynomial |-> <<Opt("p_order", "50", "30")>> \o RespOpts("101", "151"),
  RespFnExponential |-> <<Opt("vgap", "2.8e-3", "2.5e-3"), Opt("rn", "14", "10"), Opt("rsg", "1000", "700"), Opt("agap", "4e4", "2e4")>>
      \o RespOpts("101", "251"),
  RespFnAccepted |-> AcceptOpts,

  params |-> IVUnits \o Filter \o DCOpts \o SubSeq(IFOpts, 5, 6) \o Shot \o Loads \o Best \o Search \o
      <<V, Opt("debug", "False", "True"), Opt("vleak", "2e-3", "1e-3"), Opt("analyze_iv", "True", "False"), Opt("analyze_if", "True", "False"),
        Opt("ifresp_maxtn", "1e6", "500."), Opt("v_smear", "0.020", "0.03"), Opt("vmax_plot", "4.0", "5."), Opt("area", "1.5", "2."),
        Opt("freq", None, "230."), Opt("comment", "''", "'x'")>>,
  dciv_curve |-> IVUnits \o Filter \o DCOpts,
  iv_curve |-> SubSeq(IVUnits, 1, 7) \o <<OptIn({<<"voffset", "2e-5">>}, "ioffset", None, "1.3e-6"), OptIn({<<"ioffset", "1e-6">>}, "voffset", None, "2e-5")>>
      \o Filter,
  dcif_data |-> IFOpts \o Shot,
  if_data |-> IFOpts \o Shot \o Loads \o Best \o <<V>>,
  if_response |-> Loads \o <<Opt("ifresp_maxtn", "1e6", "500.")>>,
  DCData |-> IVUnits \o Filter \o DCOpts \o SubSeq(IFOpts, 5, 6) \o Shot \o
      <<Opt("area", "1.5", "2."), Opt("vleak", "2e-3", "1.4e-3"), Opt("v_smear", "0.02", "0.03"), Opt("comment", "''", "'x'"), V>>,
  PumpedData |-> SubSeq(IVUnits, 3, 3) \o Filter \o SubSeq(IFOpts, 5, 6) \o Loads \o Best \o
      <<V, Opt("analyze_if", "True", "False")>>,
  Recovery |-> Search \o <<Opt("analyze_iv", "True", "False")>>,
  Figures |-> <<Opt("vmax_plot", "4.", "3.3")>>,

  cprint |-> <<Opt("color", "'HEADER'", "'GREEN'")>>,
  title |-> <<Opt("color", None, "'RED'"), Opt("total_len", "60", "50")>>,
  header |-> <<Opt("color", None, "'BLUE'")>>,
  pvalf |-> <<Opt("units", "''", "'mV'"), Opt("comment", "''", "'(x)'"), Opt("color", None, "'RED'")>>,
  pvale |-> <<Opt("units", "''", "'mV'"), Opt("comment", "''", "'(x)'"), Opt("color", None, "'RED'")>>,
  progress_bar |-> <<Opt("prefix", "'Progress:'", "'p'"), Opt("suffix", "'Complete'", "'s'"), Opt("decimals", "2", "1"), Opt("bar_length", "20", "9")>>
]
(* options that go by their place as well as by their name *)
Placed == {"EmbeddingCircuit", "available_power", "set_available_power", "set_alpha", "set_freq", "set_name", "save_info", "qtcurrent",
           "harmonic_balance", "check_hb_error", "perfect_kk", "polynomial", "exponential", "expanded", "gauss_conv", "slope_span_n",
           "kk_trans", "remove_doubles_xy", "sort_matrix", "remove_doubles_matrix", "cprint", "title", "header", "pvalf", "pvale", "progress_bar"}

(* older forms, documented to stay valid *)
VRNOld == {[old |-> {<<"rn_vmin", "3.4e-3">>, <<"rn_vmax", "4.1e-3">>}, new |-> {<<"vrn", "(3.4e-3, 4.1e-3)">>}],
           [old |-> {<<"voffset_range", "4e-4">>}, new |-> {<<"voffset_range", "(-4e-4, 4e-4)">>}],
           [old |-> {<<"voffset_range", "1e-3">>}, new |-> {<<"voffset_range", "(-1e-3, 1e-3)">>}]}
ShotOld == {[old |-> {<<"vshot", "(4.0e-3, 4.4e-3)">>}, new |-> {<<"vshot", "((4.0e-3, 4.4e-3),)">>}],
            [old |-> {<<"vshot", "[[4.0e-3, 4.4e-3]]">>}, new |-> {<<"vshot", "((4.0e-3, 4.4e-3),)">>}],
            [old |-> {<<"vshot", "[[3.6e-3, 3.9e-3], [4.4e-3, 4.8e-3]]">>}, new |-> {<<"vshot", "((3.6e-3, 3.9e-3), (4.4e-3, 4.8e-3))">>}],
            [old |-> {<<"vshot", "[4.0e-3, 4.4e-3]">>}, new |-> {<<"vshot", "((4.0e-3, 4.4e-3),)">>}]}
Old == [dciv_curve |-> VRNOld, DCData |-> VRNOld \cup ShotOld, dcif_data |-> ShotOld, if_data |-> ShotOld,
        Recovery |-> {[old |-> {<<"cut_low", "0.4">>, <<"cut_high", "0.3">>}, new |-> {<<"fit_range", "(0.4, 0.7)">>}]}]

Names(k) == {Table[k][j].o : j \in 1..Len(Table[k])}
Defaults == [k \in DOMAIN Table |-> [o \in Names(k) |-> (CHOOSE e \in {Table[k][j] : j \in 1..Len(Table[k])} : e.o = o).d]]
INSTANCE Options WITH Default <- Defaults, Older <- Old

Call(pairs) == [o \in {p[1] : p \in pairs} |-> (CHOOSE p \in pairs : p[1] = o)[2]]
(* the calls every kind has to be tried with *)
Required(k) == UNION {{Call(e.with), Call(e.with \cup {<<e.o, e.d>>}), Call(e.with \cup {<<e.o, e.x>>})} : e \in {Table[k][j] : j \in 1..Len(Table[k])}}
               \cup (IF k \in DOMAIN Old THEN UNION {{Call(r.old), Call(r.new)} : r \in Old[k]} ELSE {})
               \cup {Call({})}
(* pairs of calls that have to differ *)
Differ(k) == {<<Call(e.with), Call(e.with \cup {<<e.o, e.x>>})>> : e \in {Table[k][j] : j \in 1..Len(Table[k])}}
=============================================================================
