"""Which generator, trace specification and models decide which property."""
import importlib

COMMON_ASSUMPTIONS = [
    "IEEE-754 double arithmetic and java.lang.Math elementary functions (Float64 overrides), cross-checked by SelfTest",
    "TLC evaluates the TLA+ definitions correctly",
    "the harness records arguments and results of the public calls faithfully",
]


SELF = [("SelfTest", "SelfTest.cfg", "SelfTest.cfg")]


def lazy(mod, fn):
    def run(ctx):
        return getattr(importlib.import_module(mod), fn)(ctx)
    return run


CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, module, mod, fn, technique, note, mc=(), jit=False, **kw):
    CHECKS[pid] = dict(module=module, gen=lazy(mod, fn), technique=technique, note=note,
                       mc=list(mc), jit=jit, **kw)


ALG = [("MTSDA_MC", "MTSDA_MC.cfg", "MTSDA_MC_thorough.cfg")]
TV = "TLA+ specification checked with TLC; trace validation of recorded calls of the real code against it"
QN = ("MTSDA algebra model-checked exhaustively over small Gaussian integers; the same TLA+ definitions, "
      "instantiated over IEEE doubles, judge every recorded call. Assurance is exhaustive for the algebra and "
      "sampled (seeded) for the implementation's inputs. Trusts the Float64 overrides and the harness's recording.")

check("Q01", "QTTrace", "c_qt", "q01", TV, QN, ALG, jit=True)
check("Q02", "QTTrace", "c_qt", "q02", TV, QN, ALG, jit=True)
check("Q03", "QTTrace", "c_qt", "q03", TV, QN, ALG, jit=True)
check("Q04", "QTTrace", "c_qt", "q04", TV, QN, ALG, jit=True)
check("Q05", "QTTrace", "c_qt", "q05", TV, QN, ALG, jit=True)
check("Q06", "QTTrace", "c_qt", "q06", TV, QN, ALG, jit=True)

HBM = [("HB_MC", "HB_MC.cfg", "HB_MC_thorough.cfg")]
HN = ("The iteration/outcome state machine is model-checked exhaustively on exactly solvable circuits; its outcome "
      "definitions and the double-precision MTSDA currents judge every recorded run of harmonic_balance. Exhaustive "
      "for the machine, sampled (seeded) for circuits. Trusts the Float64 overrides and the harness's recording.")
for _p, _f in (("H01", "h01"), ("H02", "h02"), ("H03", "h03"), ("H04", "h04"), ("H05", "h05")):
    check(_p, "HBTrace", "c_hb", _f, TV, HN, HBM, jit=True)

CM = [("Circuit_MC", "Circuit_MC.cfg", "Circuit_MC_thorough.cfg")]
CN = ("Circuit state machine (which operation writes which array, what lock refuses) model-checked over all histories "
      "up to a bound; the same machine over doubles judges every step of recorded histories of EmbeddingCircuit. ")
check("C01", "CircuitTrace", "c_cct", "c01", TV, CN + "Argument combinations enumerated, values sampled.", CM)
check("C02", "CircuitTrace", "c_cct", "c02", TV, CN + "Histories and values sampled (seeded).", CM)
check("C03", "CircuitTrace", "c_cct", "c03", TV, CN + "Circuits sampled (seeded).", CM)
check("C04", "CircuitTrace", "c_cct", "c04", "TLA+ specification checked with TLC; histories enumerated by TLC replayed into the real object and judged step by step",
      CN + "Histories enumerated exhaustively by TLC to length 3 (4 thorough, sampled replay).", CM)

HIM = [("Hilbert_MC", "Hilbert_MC.cfg", "Hilbert_MC_thorough.cfg")]
SM = [("Signal_MC", "Signal_MC.cfg", "Signal_MC_thorough.cfg")]
SN = ("Slope and mirrored-convolution theorems model-checked exhaustively over short integer sequences; the same "
      "definitions over doubles judge recorded calls. Inputs sampled (seeded). Trusts the Float64 overrides.")
check("M01", "SignalTrace", "c_sig", "m01", TV, SN, SM)
check("M02", "SignalTrace", "c_sig", "m02", TV, SN, SM)
check("M03", "SignalTrace", "c_sig", "m03", TV, "Documented formulas written in TLA+ over doubles judge recorded calls; voltages and parameters sampled (seeded).", SELF)
check("R03", "SignalTrace", "c_sig", "r03", TV, "The discrete Hilbert transform written as a TLA+ convolution over doubles judges recorded transforms; its kernel is model-checked "
      "against the spectral definition exactly, in finite fields. Curves sampled (seeded).", HIM)

RN = ("Response functions specified by their source (model formula or measured points), odd extension, Gaussian smearing "
      "and discrete Hilbert transform, all in TLA+ over doubles; TLC judges recorded tables, curves and build outcomes. "
      "Sources, parameters and voltages sampled (seeded). Trusts the Float64 overrides.")
check("R01", "RespTrace", "c_resp", "r01", TV, RN, SELF)
check("R02", "RespTrace", "c_resp", "r02", TV, RN, SELF)
check("R04", "RespTrace", "c_resp", "r04", TV, RN, SM)
check("R05", "RespTrace", "c_resp", "r05", TV, RN, SELF)

check("E01", "CleanTrace", "c_clean", "e01", "TLA+ specification checked with TLC; inputs enumerated by TLC replayed into the real functions and judged",
      "Cleaning machine (any sorting order) model-checked for all inputs up to 3 (thorough 4) samples over a small domain with "
      "missing values; the same inputs are replayed into the real functions, longer ones sampled (seeded).",
      [("Cleaning_MC", "Cleaning_MC.cfg", "Cleaning_MC_thorough.cfg")])

IM = ("Import pipeline (units, complete samples, one pass, sorting, offset, Savitzky-Golay filtering, series resistance, "
      "normalisation, resampling, line fits, calibration) written in TLA+ over doubles, one operator per stage; TLC judges recorded "
      "imports. Sweeps up to 9 samples enumerated by TLC from the one-pass machine; curves and options sampled (seeded).")
OPM = [("OnePass_MC", "OnePass_MC.cfg", "OnePass_MC_thorough.cfg"),
       ("Recording_MC", "Recording_MC.cfg", "Recording_MC_thorough.cfg")]
RCM = [("Recording_MC", "Recording_MC.cfg", "Recording_MC_thorough.cfg")]
YFM = [("YFactor_MC", "YFactor_MC.cfg", "YFactor_MC_thorough.cfg")]
check("E02", "ImportTrace", "c_exp", "e02", "TLA+ specification checked with TLC; sweeps enumerated by TLC replayed into the real importer; recorded imports judged", IM, OPM)
check("E03", "ImportTrace", "c_exp", "e03", TV, IM, RCM)
check("E04", "ImportTrace", "c_exp", "e04", TV, IM, RCM)
check("E05", "ImportTrace", "c_exp", "e05", TV, IM, RCM)
check("E06", "ImportTrace", "c_exp", "e06", TV, IM, YFM)
check("E07", "ImportTrace", "c_exp", "e07", TV, IM, YFM)
check("E08", "ImportTrace", "c_exp", "e08", TV, IM, YFM)

check("E09", "RecoverTrace", "c_rec", "e09", TV,
      "Drive-level search with halving steps model-checked for all targets and admissible first guesses; RF voltage match "
      "(selection of samples, drive levels by bisection, Tien-Gordon AC current, misfit, source voltage) written in TLA+ over "
      "doubles judges recorded recoveries. Junctions, circuits and options sampled (seeded).",
      [("Search_MC", "Search_MC.cfg", "Search_MC_thorough.cfg")])

check("S01", "SessionTrace", "c_ses", "s01",
      "TLA+ specification checked with TLC; call sequences enumerated by TLC replayed as sessions in forked processes and judged step by step",
      "Session machine (calls as functions of the versions of what they read) model-checked for all sequences up to a bound; sessions that "
      "take the enumerated ordered pairs of calls are played on shared objects and every result is compared with the same call made alone, "
      "every object with its digest. Arguments of the calls are fixed.",
      [("Session_MC", "Session_MC.cfg", "Session_MC_thorough.cfg")])

FM = [("Plotting_MC", "Plotting_MC.cfg", "Plotting_MC_thorough.cfg")]
check("V01", "FiguresTrace", "c_fig", "v01", TV,
      "Plotting machine (figures open, files written, plot_all) model-checked for all sessions up to a bound; the content of every figure "
      "(curves, units, labels, limits) written in TLA+ over doubles judges recorded figures. Data, options and destinations sampled (seeded); "
      "matplotlib's rendering is not exercised.", FM)
check("V02", "ReportsTrace", "c_rep", "v02", TV,
      "The content of every printed report (which values, in which units, to how many digits) written in TLA+ over doubles judges captured "
      "output. Objects, circuits and options sampled (seeded).", SELF)

check("O01", "OptionsTrace", "c_opt", "o01",
      "TLA+ specification checked with TLC; the calls it requires are made on the real code and judged",
      "The table of documented options, defaults and older forms is a TLA+ module; what a call means (completion by the defaults, older forms "
      "rewritten) is model-checked over all ways to give options up to a bound; every option of every kind of call is left out, given its "
      "default, given another value, and given in random company, by name and by place. Inputs of the calls sampled (seeded).",
      [("Options_MC", "Options_MC.cfg", "Options_MC_thorough.cfg"), ("Options_gen", "Options_gen.cfg", "Options_gen.cfg")])
