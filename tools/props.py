"""Source of properties.jsonl (run tools/regen.py to rewrite it)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


QT = "qmix/qtcurrent.py"
HB = "qmix/harmonic_balance.py"
CC = "qmix/circuit.py"
RF = "qmix/respfn.py"
KK = "qmix/mathfn/kktrans.py"
FI = "qmix/mathfn/filters.py"
MI = "qmix/mathfn/misc.py"
IM = "qmix/mathfn/ivcurve_models.py"
CL = "qmix/exp/clean_data.py"
IV = "qmix/exp/iv_data.py"
IF = "qmix/exp/if_data.py"
IR = "qmix/exp/if_response.py"
ED = "qmix/exp/exp_data.py"
PA = "qmix/exp/parameters.py"

# --- tunnelling currents --------------------------------------------------
prop("Q01", "Tunnelling currents equal the multi-tone spectral sum",
     "For every junction voltage, bias sweep, response function and choice of summation limits, each current returned by the tunnelling-current calculation equals the multi-tone spectral-domain sum: phase-factor coefficients of every tone, multiplied along all photon-number shifts, weighted by the response at bias plus photon voltages. This holds for 1 to 4 tones, any number of harmonics, unequal summation limits per tone, and for DC as well as AC outputs.",
     ["inputs", "configurations"], "all tone counts 1-4, harmonics, per-tone limits, voltages (any amplitude/phase), biases incl. negative, response callables",
     "tests compare a handful of one-signal cases with hand-picked analytic results; the four tone-specific kernels and unequal limits are sampled at one or two points",
     [QT], [("per-tone-count spectral sums", QT + ":_current_coeff_1_tone.._4_tones"), ("response matrix", QT + ":interpolate_respfn"), ("coefficients", QT + ":calculate_phase_factor_coeff")],
     ["qmix.qtcurrent.qtcurrent"])
prop("Q02", "Phase-factor coefficients are the Jacobi-Anger convolution",
     "For every junction voltage, the phase-factor coefficients of a tone are the convolution over its harmonics of Bessel functions of the drive level (voltage divided by the photon voltage of that harmonic) carrying the n-th multiple of the voltage phase, truncated at the summation limit. Negative orders mirror positive ones, a tone without voltage has the single coefficient one at order zero, and with enough terms the squared magnitudes add up to one.",
     ["inputs", "configurations"], "all drive amplitudes, phases, harmonic counts, limits (scalar or per tone)",
     "one test with fixed voltages; truncation edges, phases of higher harmonics and mixed limits are not reached",
     [QT], [("Bessel/Jacobi-Anger coefficients", QT + ":calculate_phase_factor_coeff"), ("recursive convolution", QT + ":_convolve_coefficients")],
     ["qmix.qtcurrent.calculate_phase_factor_coeff"])
prop("Q03", "Currents do not depend on how signals are labelled",
     "The currents at given frequencies are the same however the signals are assigned to tone and harmonic slots: permuting the tones, adding unexcited tones or harmonics, or describing a signal alone at a harmonic of its tone (the second, the third ...) as a fundamental of that frequency gives the same DC and AC currents (up to truncation).",
     ["inputs", "configurations"], "all permutations/embeddings of a set of up to four signals, with permuted limits",
     "tests compare a few embeddings of one signal for equality; not the combinations of several excited signals with permuted, unequal limits",
     [QT], [("tone-count specific kernels", QT + ":_current_2_tones, _current_3_tones, _current_4_tones"), ("dispatch", QT + ":qtcurrent")],
     ["qmix.qtcurrent.qtcurrent"])
prop("Q04", "Phase of the currents follows the phase of the applied signals",
     "Advancing the phase of a tone by theta (harmonic p by p*theta) multiplies every mixing product by exp(j*a*theta), a being that tone's order in the product, and leaves the DC current unchanged; the current at the negative of a frequency is the complex conjugate of the current at that frequency, and the DC current is real.",
     ["inputs"], "all phases per tone, all mixing products, 1-4 tones",
     "no test varies the phase of the applied voltages; all test voltages are (nearly) real",
     [QT], [("conjugation and sign conventions", QT + ":_current_coeff_*"), ("phase of coefficients", QT + ":calculate_phase_factor_coeff")],
     ["qmix.qtcurrent.qtcurrent"])
prop("Q05", "Bias points are independent and a precomputed response changes nothing",
     "The current at a bias point depends only on that bias point and its own junction voltages: evaluating a sweep at once, in pieces or in another order gives the same values. Passing the matrix produced by the response pre-interpolation gives the same currents as letting the calculation interpolate, and that matrix holds at each vector of photon orders (negative orders counted from the end) the response at the bias plus the photon voltages.",
     ["inputs", "histories"], "all sweeps (any number of points, increasing, negative, offset), sub-sweeps, 1-4 tones, unequal limits",
     "no test slices a sweep or uses a pre-interpolated matrix with more than one tone",
     [QT], [("pre-interpolation", QT + ":interpolate_respfn"), ("vectorised sums over bias", QT + ":_current_coeff_*")],
     ["qmix.qtcurrent.interpolate_respfn", "qmix.qtcurrent.qtcurrent"])
prop("Q06", "Requested frequencies are answered in order, exactly and without side effects",
     "The result has one row per requested frequency in request order, repeats included; a frequency on which no mixing product lands (at four decimals) yields zero and one on which several land yields their sum; a single number as request yields one sweep, real for DC. The request list, junction voltage, circuit and pre-interpolated matrix are left as they were, and a circuit with a zero or negative tone frequency, or too few summation limits, is rejected.",
     ["inputs"], "all request lists (lists, arrays, tuples, scalars; orders; duplicates; non-mixing; coincident products)",
     "tests ask for one or two frequencies, never a coincident, repeated or non-mixing one",
     [QT], [("frequency matching", QT + ":_current_*_tone(s)"), ("request unpacking", QT + ":qtcurrent"), ("limits", QT + ":_unpack_num_b")],
     ["qmix.qtcurrent.qtcurrent"])
# --- harmonic balance -----------------------------------------------------
prop("H01", "A converged harmonic balance satisfies every Thevenin equation",
     "Whenever harmonic balance reports convergence, at every bias point and for every tone and harmonic the returned junction voltage equals the Thevenin voltage minus the Thevenin impedance times the junction current induced by the returned voltages, within the requested relative error. Slots that carry no signal (index zero) are zero, and the independent error check accepts exactly the solutions whose error is below its limit and rejects others.",
     ["inputs", "configurations"], "all circuits (1-4 tones, harmonics, complex impedances/voltages), response functions, tolerances, initial guesses",
     "tests run a few circuits with nearly real impedances and use the library's own check as oracle",
     [HB, QT], [("Newton iteration and error vector", HB + ":harmonic_balance"), ("error check", HB + ":check_hb_error")],
     ["qmix.harmonic_balance.harmonic_balance", "qmix.harmonic_balance.check_hb_error"])
prop("H02", "The reported outcome of harmonic balance is truthful",
     "The extra outputs match what happened: the converged flag is true exactly when the returned voltages meet the error target, the iteration count is the number of corrections applied and never exceeds the maximum, and the mask marks exactly the bias points whose relative error is below the target for all signals. The returned voltages are the same in every output mode and verbosity, and failing to converge is announced even when not verbose.",
     ["inputs", "histories"], "all iteration limits relative to the number of iterations needed, modes, circuits incl. all-zero impedance",
     "one test hits the iteration limit; the boundary (converging on the last allowed iteration) and the mask are not tested",
     [HB], [("exit conditions and modes", HB + ":harmonic_balance")], ["qmix.harmonic_balance.harmonic_balance"])
prop("H03", "Harmonic balance is a resumable damped Newton iteration",
     "Running n iterations and then restarting from the result for m more gives the same voltages as n+m iterations from the start, and a run is a prefix of every longer run. Each step is the damping coefficient times the correction that cancels the linearised error of all signals (real and imaginary parts, including cross-coupling between signals) at each bias point independently, and iteration stops as soon as the target is met.",
     ["histories", "inputs"], "all splits of the iteration sequence, damping coefficients, circuits, initial guesses",
     "tests only look at the final answer; an algorithm that drifts, ignores damping or the initial guess still converges on them",
     [HB], [("Jacobian and update", HB + ":_inv_jacobian, harmonic_balance"), ("initial guess", HB + ":harmonic_balance(vj_initial)")],
     ["qmix.harmonic_balance.harmonic_balance"])
prop("H04", "Harmonic balance leaves its inputs intact",
     "Harmonic balance does not modify the initial guess it is given, nor the circuit's frequencies, impedances, bias sweep and sizes; Thevenin voltages are left alone except that those of signals with no voltage are raised to the documented minimum of 1e-10 (index-zero slots staying zero). Repeating a run on the same objects gives identical results.",
     ["histories", "inputs"], "all circuits and guesses, repeated runs, one or more tones/harmonics",
     "no test looks at the inputs after a run",
     [HB], [("in-place update of the reshaped guess", HB + ":harmonic_balance"), ("minimum Thevenin voltage", HB + ":MIN_VT")],
     ["qmix.harmonic_balance.harmonic_balance"])
prop("H05", "Harmonic balance reproduces the exactly solvable circuits",
     "With an ohmic junction (current equal to voltage) the solution is the voltage divider vt/(1+zt) for every signal and bias, reached in one undamped step, and with damping d the remaining error shrinks by the factor 1-d per iteration. If all impedances are zero the junction voltage is the Thevenin voltage itself, and a signal with zero impedance sees exactly its Thevenin voltage next to signals that do not.",
     ["inputs", "configurations"], "all complex zt/vt over 1-4 tones and harmonics, dampings, guesses",
     "tests only use one-tone SIS circuits without closed-form solution",
     [HB], [("Newton update", HB + ":harmonic_balance"), ("zero-impedance shortcut", HB + ":harmonic_balance")],
     ["qmix.harmonic_balance.harmonic_balance"])
# --- embedding circuit ----------------------------------------------------
prop("C01", "A circuit is built and normalised consistently",
     "For every valid argument combination a new circuit has zeroed arrays of the right (one-based) sizes, an evenly spaced bias sweep with the requested ends and count, and gap voltage, gap frequency, normal resistance and gap current consistent with each other (fgap = e*vgap/h, igap = vgap/rn) whichever of them were given. Frequencies set in any supported unit (any letter case) and for any tone denote the same normalised frequency, other tones stay unchanged, naming a signal labels that signal only and changes nothing else, and invalid arguments or unknown units are rejected without changing the circuit.",
     ["inputs", "configurations", "histories"], "all subsets of fgap/vgap/rn, sizes, sweep limits, units, tones",
     "tests construct a few circuits with vgap and rn both given",
     [CC], [("constructor", CC + ":EmbeddingCircuit.__init__"), ("unit conversion", CC + ":EmbeddingCircuit.set_freq")],
     ["qmix.circuit.EmbeddingCircuit"])
prop("C02", "Available power and drive level are set and read back faithfully",
     "Setting the available power of a signal in any unit and reading it in any unit returns the same physical power, |vt|^2/(8 Re zt) in absolute units; setting a drive level gives the Thevenin voltage that produces that drive level (voltage over the signal's own photon voltage, harmonics included) across the assumed junction impedance. Only the addressed signal's Thevenin voltage changes.",
     ["inputs", "histories"], "all units (any case), powers over many decades, tones, harmonics, complex impedances, sequences of settings",
     "tests check a few units on tone 1/harmonic 1",
     [CC], [("power conversion", CC + ":available_power, set_available_power"), ("drive level", CC + ":set_alpha")],
     ["qmix.circuit.EmbeddingCircuit"])
prop("C03", "A saved circuit reads back as the same circuit",
     "Writing a circuit to a file and reading it back gives a circuit with the same numbers of tones and harmonics and with the frequency, Thevenin voltage and Thevenin impedance of every signal equal to the originals at the file's precision (four decimals, two for impedances), signs and imaginary parts included; saving that circuit again produces an identical file. Saving does not change the circuit.",
     ["inputs", "histories"], "all circuits: tone/harmonic counts incl. two-digit harmonics, negative and complex values, large and tiny magnitudes",
     "one round trip of one circuit with friendly values",
     [CC], [("writer", CC + ":EmbeddingCircuit.save_info"), ("reader", CC + ":read_circuit")],
     ["qmix.circuit.read_circuit"])
prop("C04", "A locked circuit cannot be changed until unlocked",
     "After locking, every attempt to write into the circuit's frequency, Thevenin voltage, impedance or bias sweep arrays, directly or through its methods, raises an error and leaves all values unchanged, while reading, calculating currents and saving still work; unlocking restores full writability, and locking or unlocking repeatedly is harmless.",
     ["histories"], "all interleavings of lock, unlock, element writes, setter methods and reads",
     "one test writes one element of a locked circuit",
     [CC], [("writeable flags", CC + ":EmbeddingCircuit.lock, unlock")], ["qmix.circuit.EmbeddingCircuit"])
# --- response functions ---------------------------------------------------
prop("R01", "Response functions are odd/even and mutually consistent",
     "For every response function the DC current is odd in voltage and its Kramers-Kronig transform even; the complex response is transform plus j times current, with the conjugate and swapped forms built from the same two curves and calling the object giving the response; the derivative curves, where the model provides them, are the derivatives of the two curves. Evaluation is elementwise, so array shape or order does not matter.",
     ["inputs", "configurations"], "all models and parameters, all voltages incl. far outside the gap, scalars and arrays of any shape",
     "tests evaluate few voltages, derivatives and conjugate/swap are checked on one model",
     [RF], [("combinations", RF + ":RespFn.resp, resp_conj, resp_swap"), ("interpolators", RF + ":_setup_interpolation"), ("odd extension", RF + ":RespFn.__init__")],
     ["qmix.respfn.RespFn"])
prop("R02", "Response functions reproduce the I-V data they were built from",
     "The response function's DC current agrees with the supplied I-V curve (or model formula) over the whole voltage range within the interpolation error, approaches the normal-state line above the gap, and for experimental data equals the data up to the voltage limit and continues it with unit slope beyond, ignoring negative-voltage samples. Data that does not start at zero or stops too early is rejected, and the caller's arrays are not changed.",
     ["inputs", "configurations"], "all I-V curves, models/orders/parameters, voltage limits, sampling densities, with and without smearing off",
     "tests compare a few model curves against a formula at fixed parameters",
     [RF, IM], [("sampling and splines", RF + ":_sample_curve, _setup_interpolation"), ("data extension", RF + ":RespFnFromIVData.__init__")],
     ["qmix.respfn.RespFnFromIVData", "qmix.respfn.RespFn"])
prop("R03", "The Kramers-Kronig transform is the Hilbert transform of the excess current",
     "On an evenly spaced grid the transform returns, point for point, minus the Hilbert transform of current minus voltage with the data zero-padded by the requested factor: it is linear in the excess current, zero for an ohmic curve, even for odd input, agrees with direct numerical integration of the principal-value integral and with the analytic transform of the ideal junction. Unevenly spaced voltages are rejected.",
     ["inputs"], "all excess currents, grid sizes (even/odd), padding factors",
     "one comparison against one analytic curve",
     [KK, RF], [("FFT transform", KK + ":kk_trans"), ("integration", KK + ":kk_trans_trapz")], ["qmix.mathfn.kktrans"])
prop("R04", "Voltage smearing is Gaussian averaging of the I-V curve",
     "Smearing a response function by sigma convolves the excess current (current minus voltage) with a normalised Gaussian of that width, keeping the curve odd, the gap at the same voltage and the normal-state asymptote unchanged; the smeared transform is the transform of the smeared current. No smearing requested leaves the curve untouched.",
     ["inputs", "configurations"], "all models, smearing widths incl. non-multiples of the voltage step",
     "tests check only that smeared curves can be built",
     [RF, FI], [("smearing", RF + ":RespFn.__init__, RespFnPerfect.__init__"), ("kernel", FI + ":gauss_conv")], ["qmix.respfn"])
prop("R05", "The interpolation-error check accepts and rejects correctly",
     "With error checking enabled, building a response function succeeds only if both interpolated curves stay within the maximum error of the tabulated ones over the checked range, whatever the sign of the deviation; it fails otherwise, and with checking off it never fails for that reason. A looser limit never rejects what a tighter one accepts.",
     ["inputs", "configurations"], "all models, sampling sizes, spline orders and error limits",
     "tests enable the check with settings far from the limit",
     [RF], [("error check", RF + ":_setup_interpolation")], ["qmix.respfn"])
# --- mathematical functions -----------------------------------------------
prop("M01", "Numerical slopes are centred differences with matching ends",
     "The slope of sampled data is at each interior point the rise over the run between its two neighbours and one-sided at the ends, so it is exact for straight lines on any grid, exact for parabolas at interior points of even grids, linear in y, invariant under shifts and of the same length as the input. The wide-span slope is the rise over the run between points about n samples apart, equally exact for straight lines, rejects even spans and by default replaces zero slopes by a tiny positive number.",
     ["inputs"], "all x (uneven, decreasing), y, spans, lengths",
     "tests use one or two smooth curves with loose tolerances",
     [MI], [("slope", MI + ":slope"), ("slope_span_n", MI + ":slope_span_n")], ["qmix.mathfn.slope", "qmix.mathfn.slope_span_n"])
prop("M02", "Gaussian filtering is a normalised, symmetric, mirrored convolution",
     "Filtering keeps the length of the data, reproduces constants exactly, straight lines away from the ends, is linear, commutes with reversing the data, and responds to an impulse with a centred symmetric Gaussian of the requested width truncated at the requested number of widths; beyond the ends the data is mirrored. Too wide or too narrow windows are rejected.",
     ["inputs"], "all data, lengths, widths (integer or not), truncations",
     "one test with an integer width",
     [FI], [("kernel and padding", FI + ":gauss_conv, _gauss")], ["qmix.mathfn.filters.gauss_conv"])
prop("M03", "The I-V models obey their defining formulas and symmetries",
     "Each I-V curve model equals its documented formula for every voltage: all are odd in voltage, approach the normal-state line above the gap (the perfect and polynomial models exactly so) and the subgap resistance below; the ideal model's current is zero below the gap, half at it and ohmic above, for scalars and arrays alike, and its transform has the documented logarithmic form with the cap at the gap.",
     ["inputs", "configurations"], "all voltages (scalars, arrays, exactly at the gap), orders, gap/resistance parameters, both exponential variants",
     "tests evaluate a few voltages and check limits",
     [IM], [("models", IM)], ["qmix.mathfn.ivcurve_models"])
# --- experimental data ----------------------------------------------------
prop("E01", "Data cleaning keeps exactly the right samples",
     "Cleaning removes exactly the samples in which either coordinate is missing, sorts by the chosen column and keeps one sample per distinct value of it, so that the result is strictly increasing, every kept pair is an input pair and every distinct value survives; the two-array and matrix forms agree. Cleaning twice changes nothing more, inputs are not modified, and unsorted data given to the duplicate remover is rejected.",
     ["inputs"], "all finite sequences of pairs with missing values, duplicates, any order and length",
     "tests use a couple of short hand-written arrays",
     [CL], [("cleaning", CL)], ["qmix.exp.clean_data"])
prop("E02", "Imported I-V curves depend on the measurement, not on how it was recorded",
     "Importing gives the same result for the same physical data whatever units the file uses, whether the sweep was recorded upwards or downwards, with missing samples interspersed or with a multiplier taking the place of a scaling of the data; from a sweep that starts in the middle and goes both ways only one pass over the voltage range is used. The caller's array is never modified.",
     ["inputs", "configurations"], "all I-V curves, unit pairs, sweep directions and loop shapes with hysteresis, NaN positions, multipliers",
     "tests import one synthetic curve in one format",
     [IV, CL], [("loading", IV + ":_load_iv"), ("one pass selection", IV + ":_take_one_pass")], ["qmix.exp.iv_data.dciv_curve", "qmix.exp.iv_data.iv_curve"])
prop("E03", "Junction parameters extracted from a DC I-V curve are those of the junction",
     "For a DC I-V curve with known parameters the extracted normal resistance, normal-line intercept, subgap resistance and gap voltage are the junction's own, the gap current and frequency follow from them (igap = vgap/rn, fgap = e*vgap/h), the normalised curve is the measured one on the requested grid from -vmax to vmax, and derived quantities (quality factor, resistance-area product, current density, leakage) follow from their definitions. A gap voltage given by the user is used as given.",
     ["inputs", "configurations"], "all junction parameters, fit ranges, grids, with/without filtering",
     "tests check one synthetic junction with loose tolerances",
     [IV, ED], [("analysis", IV + ":_find_normal_resistance, _find_gap_voltage, _find_subgap_resistance, dciv_curve"), ("derived values", ED + ":DCData.__init__")],
     ["qmix.exp.DCData"])
prop("E04", "Offsets and series resistance are removed and nothing else",
     "Voltage and current offsets given together by the user are subtracted as given (both for the DC and the pumped curve); if not given they are found from the curve's odd symmetry when the sweep covers both polarities, and taken as zero otherwise; the offset reported is the one removed. A given series resistance reduces every voltage by current times resistance and leaves the current unchanged. Watching the import (debug) shows the curve after each step and changes nothing.",
     ["inputs", "configurations"], "all offsets, offset ranges, unipolar/bipolar sweeps, series resistances",
     "tests use one offset value and only check rn/vgap afterwards",
     [IV], [("offset", IV + ":_correct_offset"), ("series resistance", IV + ":_correct_series_resistance")], ["qmix.exp.iv_data"])
prop("E05", "Pumped I-V curves are normalised with the DC curve's parameters",
     "A pumped I-V curve is corrected with the same offset as the DC curve (or the user's), normalised to the DC curve's gap voltage and current and resampled on the requested grid, with zero current outside the measured range; inside it the curve passes through the measured points. The dynamic resistance and photon voltage reported follow from that curve and the frequency.",
     ["inputs", "configurations"], "all pumped curves incl. partial voltage ranges, grids, offsets, frequencies",
     "tests import one pumped curve and look at recovered impedance only",
     [IV, ED], [("import", IV + ":iv_curve"), ("construction", ED + ":PumpedData.__init__")], ["qmix.exp.PumpedData"])
prop("E06", "IF power is calibrated by the junction's shot noise",
     "IF data imported with a DC curve is scaled so that the shot-noise line above the gap rises by 5.8 K per mV of bias, the IF noise is the value of that line at the normal-line intercept, and the fit flag says whether it lies between 0 and 50 K; the calibrated data does not depend on the arbitrary power unit of the measurement. A calibration supplied from a DC IF measurement is used unchanged instead.",
     ["inputs", "configurations"], "all IF power curves and scales, shot-noise ranges, voltage units, offsets, filter widths",
     "tests import one synthetic IF curve",
     [IF], [("shot noise fit", IF + ":_find_if_noise"), ("loading", IF + ":_load_if")], ["qmix.exp.if_data.dcif_data", "qmix.exp.if_data.if_data"])
prop("E07", "Noise temperature, gain and best point follow from hot and cold powers",
     "At every bias the noise temperature is (Th - Y*Tc)/(Y - 1) with Y the hot/cold power ratio and the gain is the power difference over the temperature difference, the load temperatures being the Callen-Welton values at the signal frequency; the best point is the one nearest the requested voltage, or that of maximum gain or minimum noise temperature as chosen, and the reported best values are the arrays' values there. An unknown criterion is rejected. IF results are there exactly when both loads are given and the analysis is not switched off; the I-V results do not depend on it.",
     ["inputs", "configurations"], "all hot/cold curves, load temperatures, frequencies, selection criteria, parts present or analysed",
     "tests check one frequency and default temperatures with the default criterion",
     [IF, ED], [("noise temperature and gain", IF + ":_find_tn_gain, _temp_cw"), ("results", ED + ":PumpedData.__init__")], ["qmix.exp.if_data.if_data", "qmix.exp.PumpedData"])
prop("E08", "IF response gives the Y-factor noise temperature of every channel",
     "For hot and cold IF spectra in decibels, in row or column layout, the result lists each frequency with the Y-factor noise temperature for the given load temperatures and the original powers; channels without a usable Y factor get the maximum noise temperature, and no result exceeds it or is negative. Data with the wrong shape or type is rejected and the input is not modified.",
     ["inputs"], "all spectra (any length incl. 3x3), temperatures, limits",
     "one test with one synthetic spectrum",
     [IR], [("if_response", IR + ":if_response")], ["qmix.exp.if_response.if_response"])
prop("E09", "Impedance recovery returns the best fit and recovers known circuits",
     "The recovered embedding impedance is the one of smallest error on the search grid inside the requested ranges and the recovered voltage the one that best explains the drive for that impedance; for pumped curves simulated from a known circuit the recovered drive level, impedance and voltage are that circuit's to within the grid. An impedance given by the user is used as given, and the search uses only the first photon step selected by the fit range.",
     ["inputs", "configurations"], "all circuits, frequencies, search ranges, fit ranges, drive levels up to the limit",
     "tests recover one circuit at one frequency",
     [ED], [("grid search", ED + ":PumpedData._recover_zemb"), ("drive level search", ED + ":_find_alpha"), ("ac current", ED + ":_find_ac_current")], ["qmix.exp.PumpedData"])
# --- session --------------------------------------------------------------
prop("S01", "Calculations are pure: history, verbosity and sharing never change results",
     "In any sequence of library calls, each call's result depends only on its own arguments: repeating it later gives identical values, verbosity does not matter, objects built earlier keep their values, arrays passed in are not modified, results do not share memory with library state, and package-wide defaults stay as they were.",
     ["histories"], "all interleavings of constructing circuits/response functions, currents, harmonic balance, data import with option variations, on shared objects",
     "tests call each function once in isolation",
     [PA, RF, QT, HB, ED, IV, IF], [("package defaults", PA + ":params"), ("shared voltage grid", RF + ":VINIT"), ("keyword defaults", RF + ":_default_params")],
     ["all public functions"])
# --- options ----------------------------------------------------------------
prop("O01", "Options left out mean their documented defaults, options given take effect",
     "Every documented option of every public call may be left out, which means exactly what giving it its documented default means; giving it another value changes the result (in the documented circumstances); it may be given by name or, for plain functions, by its place in the documented order; the options given do not disturb each other. The older forms documented to stay valid (rn_vmin/rn_vmax for vrn, cut_low/cut_high for fit_range, a single number for voffset_range, a single range for vshot) mean the same as the new ones.",
     ["inputs", "configurations"], "all ~200 options of the circuit, current, harmonic balance, response function, model, filter, cleaning, import, analysis, plotting and terminal calls, alone and in any combination, by name and by place",
     "tests pin most options to one value and never compare leaving an option out with giving its default",
     [PA, RF, CC, QT, HB, IV, IF, IR, ED, IM, KK, FI, MI, CL, "qmix/misc/terminal.py", "qmix/misc/progbar.py"],
     [("experimental defaults", PA + ":params"), ("response function defaults", RF + ":_default_params"), ("older forms", ED + ":PumpedData.__init__"), ("older forms", IV + ":dciv_curve"),
      ("defaults of the circuit", CC + ":EmbeddingCircuit.__init__"), ("defaults of harmonic balance", HB + ":harmonic_balance")],
     ["every public call"])
# --- figures and reports ----------------------------------------------------
prop("V01", "Figures and result tables show the data, in physical units, where asked",
     "Every figure drawn by the data classes, the response functions and plot_overall_results contains the object's own curves converted to physical units (mV, uA, K, ohms), the marks it derives from them (gap, leakage, photon step, normal-state and subgap lines, fit interval, simulated curve, best point, error surface) and states the right numbers; with a file name the figure is written there, closed and nothing returned, with given axes it is drawn there, otherwise a new figure is left open. plot_all and plot_overall_results write one file per figure the data allows, in the documented folders, and tables with one row per measurement. Drawing (and debug mode) changes no data.",
     ["inputs", "configurations"], "all imported data (with/without IF data and recovered circuit), destinations, vmax_plot values, folder layouts, response functions",
     "no test draws or looks at a figure: every plotting method is excluded from coverage",
     [ED, RF, IV], [("DC figures", ED + ":DCData.plot_dciv, plot_offset, plot_if_noise, plot_all"), ("pumped figures", ED + ":PumpedData.plot_iv .. plot_simulated, plot_all"),
                    ("overall results", ED + ":plot_overall_results"), ("response figures", RF + ":RespFn.plot, plot_interpolation")],
     ["matplotlib figures", "files in the results folder"])
prop("V02", "Printed reports state the values they describe, in the units they name",
     "str/print_info of DC data, verbose import of pumped data, the impedance recovery report, the response function's interpolation report (points, average and largest absolute error and where), the tunneling current report, EmbeddingCircuit.print_info, the harmonic balance progress report and its double check print the object's own values, rounded to the printed digits, in the printed units, with the right sign, one line per quantity (per tone and harmonic for circuits, per iteration and signal for harmonic balance); the reported verdict (good or bad fit, target achieved or not) is the returned one, and the warnings about a suspicious normal resistance or a failed shot-noise fit appear exactly when they apply. The terminal helpers print name, value, units, comment and colour as given; complex numbers keep their sign; the progress bar is filled in proportion.",
     ["inputs", "configurations"], "all data sets, circuits (with and without gap voltage and resistance), convergence outcomes, colours, numbers",
     "no test reads what is printed",
     [ED, CC, HB, "qmix/misc/terminal.py", "qmix/misc/progbar.py", IF], [("DC report", ED + ":DCData.__str__"), ("recovery report", ED + ":PumpedData._recover_zemb"), ("circuit report", CC + ":EmbeddingCircuit.print_info"),
      ("balance report", HB + ":harmonic_balance, check_hb_error"), ("terminal", "qmix/misc/terminal.py")],
     ["standard output"])
