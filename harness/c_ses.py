"""Sessions: generator for S01.

A world of shared objects (circuits, response functions, imported data, raw arrays); an
alphabet of library calls on them.  TLC enumerates which calls follow each other; the
harness plays long sessions in forked processes and records every result and a digest of
every object after every call.  Reference results come from processes that make nothing
but that one call.
"""
import collections
import hashlib
import json
import os
import pickle
import re
import sys
import tempfile
import time
import traceback
import numpy as np
from common import FS, Machinery, quiet
from c_exp import data

IVKW = dict(npts=401, vrn=(3.5e-3, 4.5e-3), vmax=6e-3, voffset=1e-4, ioffset=9.7e-6)
IFKW = dict(vshot=(4.5e-3, 5.5e-3), ifdata_npts=501)


# --- digests ------------------------------------------------------------------

def walk(x, h, depth=0, seen=None):
    """Feed the visible contents of x to the hash h."""
    seen = seen if seen is not None else set()
    if isinstance(x, np.ndarray):
        h.update(repr((x.shape, x.dtype.str)).encode())
        h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
    elif isinstance(x, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        h.update(repr(x).encode())
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            h.update(repr(k).encode())
            walk(x[k], h, depth + 1, seen)
    elif isinstance(x, (list, tuple)):
        h.update(("%s%d" % (type(x).__name__, len(x))).encode())
        for y in x:
            walk(y, h, depth + 1, seen)
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("qmix"):
        if id(x) in seen or depth > 6:
            return
        seen.add(id(x))
        for k in sorted(vars(x)):
            if not k.startswith("_"):
                h.update(k.encode())
                walk(vars(x)[k], h, depth + 1, seen)
    else:
        h.update(type(x).__name__.encode())


def digest(x):
    h = hashlib.sha1()
    walk(x, h)
    return h.hexdigest()[:12]


def numbers(x, out):
    """All numbers of a result, flat."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "biufc" or isinstance(x, (bool, int, float, complex, np.generic)):
        a = np.asarray(x)
        if a.dtype.kind in "biufc":
            out.append(np.array([a.ndim] + list(a.shape), float))
            out.append(a.ravel().astype(complex).view(float) if a.dtype.kind == "c" else a.ravel().astype(float))
    elif isinstance(x, str):
        out.append(np.frombuffer(hashlib.sha1(x.encode()).digest()[:4], dtype=np.uint8).astype(float))
    elif x is None:
        out.append(np.array([-1.]))
    elif isinstance(x, dict):
        for k in sorted(x):
            numbers(x[k], out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            numbers(y, out)
    else:
        out.append(np.array([-2.]))


def flat(x):
    out = []
    numbers(x, out)
    a = np.concatenate(out) if out else np.zeros(0)
    if len(a) > 150:
        i = np.unique(np.linspace(0, len(a) - 1, 140).astype(int))
        f = a[np.isfinite(a)]
        a = np.r_[a[i], len(a), len(f), f.sum(), np.abs(f).sum(), (f * np.arange(len(f))).sum()]
    return np.where(np.isfinite(a), a, 1e99)


def arrays_of(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        for y in x:
            yield from arrays_of(y)


def scribble(x):
    """Overwrite what a call returned: it is the caller's own."""
    for a in arrays_of(x):
        try:
            a[...] = 77
        except (ValueError, TypeError):
            pass


# --- the world ------------------------------------------------------------------

class World:
    BUILD = ["raw", "c1", "c2", "rp", "rd", "dc", "pd", "vj"]

    def __init__(self, seed, order=None, dir="."):
        self.dir = dir
        self.x = np.random.default_rng([7, seed]).uniform(.8, 1.25, 20)     # what differs between worlds
        todo = list(order or self.BUILD)
        while todo:                         # any order, as far as one thing needs another
            for k in todo:
                if all(d not in todo for d in {"dc": ["raw"], "pd": ["raw", "dc"], "vj": ["c1", "c2", "rp"], "rd": ["raw"]}.get(k, [])):
                    getattr(self, "make_" + k)()
                    todo.remove(k)
                    break
        import qmix
        import qmix.exp.parameters as P
        import qmix.respfn as rf
        self.defaults = (P, rf)

    def make_raw(self):
        self.raw = {k: data(k)[::s] for k, s in (("dciv", 1), ("iv", 1), ("dcif", 1), ("hot", 1), ("cold", 1))}
        r = np.random.default_rng(5)
        x = np.round(r.normal(size=40), 1)
        y = r.normal(size=40)
        x[::9] = np.nan
        y[4] = np.nan
        self.raw["x"], self.raw["y"], self.raw["xy"] = x, y, np.column_stack((x, y))
        self.raw["line"] = np.linspace(-2, 2, 81)
        self.raw["steps"] = np.where(r.random(81) < .2, 1., 0.) + np.linspace(0, 1, 81)
        v = np.linspace(0, 3, 301)
        self.raw["v"], self.raw["i"] = v, v**41 / (1 + v**40) + .01 * v
        w = np.linspace(0, 8, 801)
        self.raw["w"], self.raw["j"] = w, w**31 / (1 + w**30)
        self.raw["i2"], self.raw["j2"] = self.raw["i"] + .01 * v, w**33 / (1 + w**32)
        self.raw["dciv2"], self.raw["iv2"] = self.raw["dciv"] * [1, 1.01], self.raw["iv"] * [1., .98]
        self.raw["vmv"] = np.linspace(-5e-3, 5e-3, 51)
        f = np.linspace(4, 6, 21)
        self.raw["spec"] = np.column_stack((f, -50 + np.sin(f), -52 + np.cos(3 * f) * .2))
        self.kw = {"iv": dict(IVKW), "if": dict(IFKW)}

    def make_c1(self):
        from qmix.circuit import EmbeddingCircuit
        c = EmbeddingCircuit(1, 1, vb_min=.1, vb_max=1.4, vb_npts=5, vgap=2.8e-3, rn=14.)
        c.freq[1] = .3
        c.vt[1, 1] = .35 * self.x[0]
        c.zt[1, 1] = .3 * self.x[1] - .2j * self.x[2]
        self.c1 = c
        c = EmbeddingCircuit(1, 1, vb_min=.15, vb_max=1.3, vb_npts=5, vgap=2.8e-3, rn=14.)
        c.freq[1] = .3
        c.vt[1, 1] = self.c1.vt[1, 1]
        c.zt[1, 1] = .4 + .1j
        self.c3 = c

    def make_c2(self):
        from qmix.circuit import EmbeddingCircuit
        c = EmbeddingCircuit(2, 1, vb_min=0, vb_max=1.2, vb_npts=3, vgap=2.8e-3, rn=14.)
        c.freq[1:] = .3, .35
        c.vt[1, 1], c.vt[2, 1] = .3 * self.x[3], .02j * self.x[4]
        c.zt[1:, 1] = .5 * self.x[5] + .1j, .2 - .3j * self.x[6]
        c.name = "shared"
        self.c2 = c

    def make_rp(self):
        from qmix.respfn import RespFnPolynomial
        self.rp = RespFnPolynomial(int(30 * self.x[11]), verbose=False)

    def make_rd(self):
        from qmix.respfn import RespFnFromIVData
        self.rd = RespFnFromIVData(self.raw["v"], self.raw["i"], v_smear=.02, verbose=False)

    def make_dc(self):
        from qmix.exp.exp_data import DCData
        self.dc = DCData(self.raw["dciv"], self.raw["dcif"], verbose=False, **self.kw["iv"], **self.kw["if"])

    def make_pd(self):
        from qmix.exp.exp_data import PumpedData
        self.pd = PumpedData(self.raw["iv"], self.dc, self.raw["hot"], self.raw["cold"], freq=230., analyze_iv=False, verbose=False,
                             **self.kw["iv"], **self.kw["if"])

    def make_vj(self):
        self.vj = {"1": np.array([[[0] * 5] * 2] * 2, complex), "2": np.zeros((3, 2, 3), complex), "0": np.zeros((2, 2, 5), complex),
                   "f1": [0, .3, .3, .6], "f2": np.array([0., .05, .65, .3])}
        self.vj["1"][1, 1] = .2 * self.x[7] + .05j * self.x[8] * np.arange(5)
        self.vj["0"][1, 1] = .1 + .02j * np.arange(5)
        self.vj["2"][1:, 1] = [[.2, .25j * self.x[9], .1], [.01, .02 * self.x[10], -.03]]
        self.vj["nb"] = (5, 3)
        from qmix.qtcurrent import interpolate_respfn
        with quiet():
            self.vj["m"] = interpolate_respfn(self.c2, self.rp, (5, 3))

    def digests(self):
        P, rf = self.defaults
        with quiet():
            probe = [np.asarray(r.resp(np.linspace(-1.7, 2.3, 17))) for r in (self.rp, self.rd)]
        return {"raw": digest([self.raw, self.kw]), "c1": digest([self.c1, self.c3]), "c2": digest(self.c2), "rp": digest([self.rp, probe[0]]),
                "rd": digest([self.rd, probe[1]]), "dc": digest(self.dc), "pd": digest(self.pd), "vj": digest(self.vj),
                "defaults": digest([P.params, {k: v for k, v in vars(rf).items() if k.isupper()}])}


# --- the alphabet -----------------------------------------------------------------

CALLS = collections.OrderedDict()


def op(f):
    CALLS[f.__name__] = f
    return f


def resp_of(r):
    v = np.linspace(-1.8, 2.2, 23)
    return [r.idc(v), r.ikk(v), r.didc(v), r.resp_conj(v), r.voltage, r.current, r.current_kk]


def new_resp(name, *a, **k):
    import qmix.respfn as rf
    r = getattr(rf, name)(*a, **k)
    out = resp_of(r)
    copy = [x.copy() for x in out]
    scribble([r.voltage, r.current, r.voltage_kk, r.current_kk])      # the new object is the caller's
    return copy


@op
def new_polynomial(w, vb): return new_resp("RespFnPolynomial", 50, verbose=vb)
@op
def new_polynomial_fast(w, vb): return new_resp("RespFnPolynomial", 20, verbose=vb, max_npts_dc=51, max_npts_kk=61, kk_n=10, spline_order=2)
@op
def new_exponential(w, vb): return new_resp("RespFnExponential", verbose=vb, rsg=600.)
@op
def new_perfect(w, vb): return new_resp("RespFnPerfect", verbose=vb, v_smear=.03)
@op
def new_from_data(w, vb): return new_resp("RespFnFromIVData", w.raw["v"], w.raw["i"], verbose=vb)
@op
def new_from_data_limit(w, vb): return new_resp("RespFnFromIVData", w.raw["v"], w.raw["i"], verbose=vb, vlimit=1.4, v_smear=.01, check_error=True, max_interp_error=1.)
@op
def new_from_grid(w, vb): return new_resp("RespFn", w.raw["w"], w.raw["j"], verbose=vb)
@op
def evaluate(w, vb): return resp_of(w.rp)[:4] + [w.rd(w.raw["line"]), w.rp(.7), w.rd.resp_swap(w.raw["line"])]


def hb(w, c, vb, *a, **k):
    from qmix.harmonic_balance import harmonic_balance
    return harmonic_balance(c, w.rp, *a, verbose=vb, **k)


@op
def balance(w, vb): return hb(w, w.c1, vb, num_b=5)
@op
def balance_restart(w, vb): return hb(w, w.c1, vb, num_b=5, vj_initial=w.vj["0"], mode="x", max_it=2, damp_coeff=.9)
@op
def balance_mask(w, vb): return hb(w, w.c1, vb, num_b=4, mode="m", stop_rerror=1e-5)
@op
def balance_two(w, vb): return hb(w, w.c2, vb, num_b=(4, 2), max_it=1)


@op
def balance_check(w, vb):
    from qmix.harmonic_balance import check_hb_error
    try:
        check_hb_error(w.vj["1"], w.c1, w.rp, num_b=5)
    except (AssertionError, ValueError):
        return 0
    return 1


def qt(w, *a, **k):
    from qmix.qtcurrent import qtcurrent
    return qtcurrent(*a, **k)


@op
def currents(w, vb): return qt(w, w.vj["1"], w.c1, w.rp, w.vj["f1"], num_b=6, verbose=vb)
@op
def current_dc(w, vb): return qt(w, w.vj["1"], w.c1, w.rd, 0, num_b=6, verbose=vb)
@op
def currents_two(w, vb): return qt(w, w.vj["2"], w.c2, w.rp, w.vj["f2"], num_b=w.vj["nb"], verbose=vb)
@op
def currents_matrix(w, vb): return qt(w, w.vj["2"], w.c2, w.rp, w.vj["f2"], num_b=w.vj["nb"], verbose=vb, resp_matrix=w.vj["m"])


@op
def response_matrix(w, vb):
    from qmix.qtcurrent import interpolate_respfn
    return interpolate_respfn(w.c2, w.rp, (4, 3))


@op
def phase_factors(w, vb):
    from qmix.qtcurrent import calculate_phase_factor_coeff
    return calculate_phase_factor_coeff(w.vj["2"], w.c2.freq, 2, 1, w.vj["nb"])


@op
def set_power(w, vb): return w.c2.set_available_power(40., f=1, p=1, units="nW")
@op
def set_drive(w, vb): return w.c2.set_alpha(.9, f=1, p=1)
@op
def read_power(w, vb): return [w.c2.available_power(f=1, units="dBm"), w.c2.available_power(f=2), w.c2.vph.copy()]


@op
def describe(w, vb):
    w.c2.print_info()
    return [str(w.c2), str(w.c1)]


@op
def lock_cycle(w, vb):
    w.c1.lock()
    w.c1.lock()
    w.c1.unlock()
    return w.c1.initialize_vj()


@op
def save_and_read(w, vb):
    from qmix.circuit import read_circuit
    f = os.path.join(w.dir, "c.txt")
    w.c2.save_info(f)
    c = read_circuit(f)
    out = [c.freq.copy(), c.vt.copy(), c.zt.copy()]
    scribble([c.freq, c.vt, c.zt])
    return out


def fields(x, names):
    return [np.array(getattr(x, k), float) for k in names.split()]


@op
def new_dcdata(w, vb):
    from qmix.exp.exp_data import DCData
    d = DCData(w.raw["dciv"], verbose=vb, **dict(w.kw["iv"], npts=301, filter_nwind=11))
    out = fields(d, "voltage current vgap igap fgap rn rsg vint")
    scribble([d.voltage, d.current])
    return out


@op
def new_dcdata_if(w, vb):
    from qmix.exp.exp_data import DCData
    d = DCData(w.raw["dciv"], w.raw["dcif"], verbose=vb, rseries=.4, **w.kw["iv"], **w.kw["if"])
    return fields(d, "voltage current rn rsg if_noise corr")


def pumped(w, vb, *a, **k):
    from qmix.exp.exp_data import PumpedData
    return PumpedData(w.raw["iv"], w.dc, *a, freq=230., verbose=vb, **dict(w.kw["iv"], **k))


@op
def new_pumped(w, vb):
    p = pumped(w, vb, analyze_iv=False)
    out = fields(p, "voltage current rdyn vph")
    scribble([p.voltage, p.current, p.rdyn])
    return out


@op
def new_pumped_if(w, vb):
    p = pumped(w, vb, w.raw["hot"], w.raw["cold"], analyze_iv=False, best_pt="Min Tn", **w.kw["if"])
    out = fields(p, "voltage tn gain tn_best v_best if_noise")
    scribble([p.tn, p.gain, p.if_hot, p.if_cold])
    return out


@op
def recover_impedance(w, vb):
    p = pumped(w, vb, alpha_max=1., num_b=8)
    return [complex(p.zt), float(p.vt), complex(p.zw), float(p.alpha), bool(p.fit_good)]


@op
def import_dc(w, vb):
    from qmix.exp.iv_data import dciv_curve
    v, i, dc = dciv_curve(w.raw["dciv"], **dict(w.kw["iv"], filter_data=False, vgap=2.7e-3))
    return [v, i, dc.vgap, dc.rn, dc.rsg, dc.vint]


@op
def import_pumped(w, vb):
    from qmix.exp.iv_data import iv_curve
    return iv_curve(w.raw["iv"], w.dc.dc, **w.kw["iv"])


@op
def import_if(w, vb):
    from qmix.exp.if_data import if_data
    res, best, _ = if_data(w.raw["hot"], w.raw["cold"], w.dc.dc, freq=230., verbose=vb, dcif=w.dc.dcif, **w.kw["if"])
    return [res, best]


@op
def import_dc_if(w, vb):
    from qmix.exp.if_data import dcif_data
    d, m = dcif_data(w.raw["dcif"], w.dc.dc, **w.kw["if"])
    return [d, float(m.corr), float(m.if_noise)]


@op
def spectrum(w, vb):
    from qmix.exp.if_response import if_response
    return if_response(w.raw["spec"], t_cold=80.)


@op
def cleaning(w, vb):
    import qmix.exp.clean_data as cd
    m = cd.remove_nans_matrix(w.raw["xy"])
    return [cd.clean_xy(w.raw["x"], w.raw["y"]), cd.clean_matrix(w.raw["xy"]), m, cd.sort_matrix(w.raw["xy"][1:4], 1),
            cd.xy_to_matrix(w.raw["x"], w.raw["y"]), cd.sort_xy(w.raw["line"], w.raw["steps"]), cd.remove_doubles_xy(w.raw["line"], w.raw["steps"])]


@op
def filters(w, vb):
    from qmix.mathfn.filters import gauss_conv
    from qmix.mathfn.misc import slope, slope_span_n
    return [gauss_conv(w.raw["steps"], sigma=3.), gauss_conv(w.raw["line"], 2.2, 2), slope(w.raw["line"], w.raw["steps"]),
            slope_span_n(w.raw["line"], w.raw["steps"], 7)]


@op
def transforms(w, vb):
    from qmix.mathfn.kktrans import kk_trans, kk_trans_trapz
    return [kk_trans(w.raw["line"], w.raw["steps"], 5), kk_trans_trapz(w.raw["line"], w.raw["steps"])]


@op
def models(w, vb):
    import qmix.mathfn.ivcurve_models as iv
    x = w.raw["line"]
    return [iv.perfect(x), iv.perfect_kk(x), iv.polynomial(x), iv.polynomial(x, 20), iv.exponential(w.raw["vmv"]), iv.expanded(w.raw["vmv"]),
            iv.perfect(1.), iv.exponential(2e-3, model="fixed")]


@op
def plots(w, vb):
    import matplotlib.pyplot as plt
    w.dc.plot_dciv(), w.dc.plot_offset(), w.pd.plot_iv(), w.rp.plot(), w.rd.plot_interpolation()
    plt.close("all")
    return 0


@op
def reports(w, vb):
    w.dc.print_info()
    return [str(w.dc), str(w.rp)]


# Twins: the same calls with one argument changed, so that nothing remembered from
# the one may serve the other.

def balance_as(w, vb, cct=None, resp=None, **k):
    from qmix.harmonic_balance import harmonic_balance
    return harmonic_balance(cct or w.c1, resp or w.rp, verbose=vb, **dict(dict(num_b=5), **k))


@op
def new_polynomial_51(w, vb): return new_resp("RespFnPolynomial", 51, verbose=vb)
@op
def new_polynomial_smear(w, vb): return new_resp("RespFnPolynomial", 50, verbose=vb, v_smear=.02)
@op
def new_exponential_rn(w, vb): return new_resp("RespFnExponential", verbose=vb, rsg=600., rn=15.)
@op
def new_perfect_wider(w, vb): return new_resp("RespFnPerfect", verbose=vb, v_smear=.031)
@op
def new_from_data_other(w, vb): return new_resp("RespFnFromIVData", w.raw["v"], w.raw["i2"], verbose=vb)
@op
def new_from_grid_other(w, vb): return new_resp("RespFn", w.raw["w"], w.raw["j2"], verbose=vb)
@op
def new_from_grid_padded(w, vb): return new_resp("RespFn", w.raw["w"], w.raw["j"], verbose=vb, kk_n=30)
@op
def evaluate_elsewhere(w, vb): return [w.rp.idc(w.raw["line"] + .1), w.rp.ikk(w.raw["line"] + .1), w.rd(w.raw["line"] + .1), w.rp(.8)]
@op
def balance_impedance(w, vb): return balance_as(w, vb, w.c3)
@op
def balance_response(w, vb): return balance_as(w, vb, None, w.rd)
@op
def balance_terms(w, vb): return balance_as(w, vb, num_b=6)
@op
def balance_damped(w, vb): return balance_as(w, vb, max_it=2, damp_coeff=.5, mode="x")
@op
def currents_voltage(w, vb): return qt(w, w.vj["1"] * 1.1, w.c1, w.rp, w.vj["f1"], num_b=6, verbose=vb)
@op
def currents_response(w, vb): return qt(w, w.vj["1"], w.c1, w.rd, w.vj["f1"], num_b=6, verbose=vb)
@op
def currents_bias(w, vb): return qt(w, w.vj["1"], w.c3, w.rp, w.vj["f1"], num_b=6, verbose=vb)
@op
def currents_terms(w, vb): return qt(w, w.vj["1"], w.c1, w.rp, w.vj["f1"], num_b=5, verbose=vb)
@op
def currents_order(w, vb): return qt(w, w.vj["2"], w.c2, w.rp, w.vj["f2"][::-1], num_b=w.vj["nb"], verbose=vb)


@op
def response_matrix_other(w, vb):
    from qmix.qtcurrent import interpolate_respfn
    return interpolate_respfn(w.c2, w.rd, (4, 3))


@op
def phase_factors_other(w, vb):
    from qmix.qtcurrent import calculate_phase_factor_coeff
    return calculate_phase_factor_coeff(w.vj["2"][..., ::-1] * .9, w.c2.freq, 2, 1, w.vj["nb"])


@op
def new_dcdata_series(w, vb):
    from qmix.exp.exp_data import DCData
    return fields(DCData(w.raw["dciv"], verbose=vb, **dict(w.kw["iv"], npts=301, filter_nwind=11, rseries=.3)), "voltage current rn rsg")


@op
def new_dcdata_other(w, vb):
    from qmix.exp.exp_data import DCData
    return fields(DCData(w.raw["dciv2"], verbose=vb, **dict(w.kw["iv"], npts=301, filter_nwind=11)), "voltage current rn rsg vgap")


@op
def new_pumped_other(w, vb):
    from qmix.exp.exp_data import PumpedData
    return fields(PumpedData(w.raw["iv2"], w.dc, freq=233., verbose=vb, analyze_iv=False, **w.kw["iv"]), "voltage current rdyn vph")


@op
def recover_forced(w, vb):
    p = pumped(w, vb, alpha_max=1., num_b=8, zemb=.4 - .1j)
    return [complex(p.zt), float(p.vt), complex(p.zw), float(p.alpha)]


@op
def recover_narrow(w, vb):
    p = pumped(w, vb, alpha_max=1., num_b=8, fit_range=(.3, .7), remb_range=(.1, .9))
    return [complex(p.zt), float(p.vt), complex(p.zw), float(p.alpha)]


@op
def import_if_warmer(w, vb):
    from qmix.exp.if_data import if_data
    res, best, _ = if_data(w.raw["hot"], w.raw["cold"], w.dc.dc, freq=235., t_hot=300., verbose=vb, vbest=2e-3, **w.kw["if"])
    return [res, best]


@op
def spectrum_default(w, vb):
    from qmix.exp.if_response import if_response
    return if_response(w.raw["spec"])


@op
def filters_other(w, vb):
    from qmix.mathfn.filters import gauss_conv
    from qmix.mathfn.misc import slope, slope_span_n
    y = w.raw["steps"][::-1].copy()
    return [gauss_conv(w.raw["steps"], sigma=3.1), gauss_conv(y, sigma=3.), gauss_conv(w.raw["steps"], 3., 2), slope(w.raw["line"], y), slope_span_n(w.raw["line"], y, 7),
            slope_span_n(w.raw["line"], w.raw["steps"], 9)]


@op
def transforms_other(w, vb):
    from qmix.mathfn.kktrans import kk_trans, kk_trans_trapz
    y = w.raw["steps"][::-1].copy()
    return [kk_trans(w.raw["line"], w.raw["steps"], 6), kk_trans(w.raw["line"], y, 5), kk_trans_trapz(w.raw["line"], y)]


@op
def models_other(w, vb):
    import qmix.mathfn.ivcurve_models as iv
    x = w.raw["line"] * 1.1
    return [iv.perfect(x), iv.perfect_kk(x, max_kk=5.), iv.polynomial(x), iv.polynomial(w.raw["line"], 21), iv.exponential(w.raw["vmv"], rn=13.),
            iv.expanded(w.raw["vmv"] * 1.1), iv.exponential(w.raw["vmv"], model="fixed", vgap=2.7e-3)]


def fresh(name, version, seed, path):
    """(in a child) nothing but this one call, after the writer that made the version"""
    w = World(seed, None, path)
    with quiet():
        if version != "new":
            CALLS[version](w, False)
        r = CALLS[name](w, False)
    return flat(r)


def session(names, order, seed, salt, path):
    """(in a child) one long session: list of steps"""
    rng = np.random.default_rng([seed, salt])
    w = World(seed, order, path)
    steps = [{"call": "start", "ok": True, "exc": "", "res": [], "h": w.digests(), "verbose": False}]
    for n in names:
        vb = bool(rng.random() < .5)
        s = {"call": n, "ok": True, "exc": "", "res": [], "verbose": vb}
        try:
            with quiet():
                r = CALLS[n](w, vb)
            s["res"] = FS(flat(r))
            scribble(r)
        except Exception as e:       # noqa
            s["ok"], s["exc"] = False, "%s: %s" % (type(e).__name__, e)
        s["h"] = w.digests()
        steps.append(s)
    return steps


def pooled(jobs, workers=7):
    """Run (fn, *args) jobs in forked children, at most `workers` at a time, from this thread."""
    out = [None] * len(jobs)
    live = {}
    todo = list(range(len(jobs)))[::-1]
    while todo or live:
        while todo and len(live) < workers:
            k = todo.pop()
            path = tempfile.mktemp(prefix="ses-", dir=jobs[k][1])
            pid = os.fork()
            if pid == 0:
                import signal
                signal.alarm(0)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1), os.dup2(null, 2)
                try:
                    os.makedirs(path + ".d")
                    res = (jobs[k][0](*jobs[k][2:], path=path + ".d"), None)
                except BaseException:   # noqa
                    res = (None, traceback.format_exc())
                with open(path, "wb") as f:
                    pickle.dump(res, f)
                os._exit(0)
            live[pid] = (k, path)
        time.sleep(.02)
        for pid in [p for p in live if os.waitpid(p, os.WNOHANG)[0]]:
            k, path = live.pop(pid)
            try:
                with open(path, "rb") as f:
                    out[k] = pickle.load(f)
            except OSError:
                out[k] = (None, "the process died")
    return out


def chain(pairs, rng):
    """A walk that takes every pair (a, b) as consecutive calls: greedy, starting a new
    stretch when stuck."""
    left = collections.defaultdict(list)
    for a, b in pairs:
        left[a].append(b)
    for a in left:
        left[a] = [left[a][i] for i in rng.permutation(len(left[a]))]
    walks, n = [], sum(map(len, left.values()))
    while n:
        starts = [a for a in left if left[a]]
        a = starts[int(rng.integers(len(starts)))]
        walk = [a]
        while left[a]:
            a = left[a].pop()
            n -= 1
            walk.append(a)
        walks.append(walk)
    return walks


def s01(ctx):
    rng = ctx.rng()
    names = list(CALLS)
    r = ctx.tlc("Session_MC", "Session_gen.cfg", timeout=900)
    pairs = sorted({tuple(m.split(",")) for m in re.findall(r'"HIST\|(.*?)"', r.out)})
    unknown = {x for p in pairs for x in p} ^ set(names)
    if unknown:
        raise Machinery("the specification's calls and the harness's differ: %s" % unknown)
    reads = json.loads(re.search(r'"READS\|(.*?)"', r.out).group(1).replace("'", '"'))
    near = [p for p in pairs if p[0].split("_")[0] == p[1].split("_")[0]]      # the same call or its twin
    if not ctx.thorough:
        pairs = sorted(set(near) | {pairs[i] for i in rng.permutation(len(pairs))[:1500]})
    for rep in range(ctx.n(1, 6)):
        play(ctx, rng, names, pairs, reads, ctx.seed + 1000 * rep)


def play(ctx, rng, names, pairs, reads, seed):
    walk = [x for w in chain(pairs, rng) for x in w]
    keys = [(n, v) for n in names for v in (["new", "set_power", "set_drive"] if "c2" in reads[n] else ["new"])]
    size = 80
    chunks = [walk[i:i + size + 1] for i in range(0, len(walk), size)]
    orders = [[World.BUILD[i] for i in rng.permutation(len(World.BUILD))] for _ in chunks]
    out = pooled([(fresh, ctx.scratch, n, v, seed) for n, v in keys]
                 + [(session, ctx.scratch, c, o, seed, k) for k, (c, o) in enumerate(zip(chunks, orders))])
    ref = {}
    for (n, v), (res, exc) in zip(keys, out):
        ref[n + "@" + v] = {"ok": exc is None, "res": FS(res) if exc is None else []}
        if exc is not None:
            ctx.add({"op": "crash", "case": "%s@%s" % (n, v), "exc": "", "trace": exc[-1500:]})
    for c, (steps, exc) in zip(chunks, out[len(keys):]):
        if exc is not None:
            ctx.add({"op": "crash", "case": "session", "exc": "", "trace": exc[-1500:]})
            continue
        used = {s["call"] for s in steps}
        ctx.add({"op": "session", "case": " ".join(c[:6]) + " ...", "steps": steps,
                 "ref": {k: ref[k] for k in ref if k.split("@")[0] in used}})
