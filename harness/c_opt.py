"""Options left out or given: generator for O01.

TLC writes down the options of every kind of call and the calls that have to be tried
(Options_gen); further calls give a random part of the options, by name or by place.  All
calls of a kind are made on the same inputs, new ones for every call.
"""
import ast
import io
import json
import os
import re
import tempfile
import contextlib
import numpy as np
from common import F, FS, Machinery, quiet, tlc
from c_ses import numbers
from c_exp import data

KINDS = {}


def parts(x):
    """The numbers of a result, array by array: some of its elements, how many there are, and their sums."""
    out = []
    numbers(x, out)
    res = []
    for a in out:
        f = a[np.isfinite(a)]
        i = np.unique(np.linspace(0, len(a) - 1, 24).astype(int)) if len(a) > 24 else np.arange(len(a))
        res.append(np.where(np.isfinite(a[i]), a[i], 1e99))
        if len(a) > 24:
            res += [np.array([len(a), len(f)], float), np.array([np.abs(f).sum()]), np.array([(np.abs(f) * np.arange(len(f))).sum()])]
    return res


def kind(f):
    KINDS[f.__name__] = f
    return f


def attrs(x, skip=("kwargs",)):
    """The public contents of an object as nested plain values."""
    out = []
    for k in sorted(vars(x)):
        y = vars(x)[k]
        if k.startswith("_") or k in skip:
            continue
        if type(y).__module__.startswith("qmix") and not isinstance(y, tuple):
            if hasattr(y, "idc"):
                v = np.linspace(-1.8, 2.2, 23)
                y = [y.idc(v), y.ikk(v)]
            else:
                continue
        out.append([k, list(y) if isinstance(y, tuple) else y])
    return out


class Kit:
    """The inputs of one round of calls."""

    def __init__(self, seed):
        self.r = np.random.default_rng([11, seed])
        r = self.r
        self.zt = r.uniform(.2, .8, (3, 3)) + 1j * r.uniform(-.5, .5, (3, 3))
        self.vt = r.uniform(.1, .4, (3, 3)) + 1j * r.uniform(-.2, .2, (3, 3))
        self.fr = np.r_[0, r.uniform(.2, .3), r.uniform(.32, .4)]
        self.w = np.sort(r.uniform(.05, 1.6, 4))
        v = np.linspace(0, 3, 301)
        self.v, self.i = v, v**41 / (1 + v**40) + r.uniform(.01, .04) * v
        self.g = np.linspace(0, 8, 801)
        self.gi = self.g**31 / (1 + self.g**30)
        self.x = r.normal(size=200).cumsum()
        self.flatx = np.repeat(r.normal(size=10), 20)
        self.doubles = np.repeat(np.sort(np.round(r.normal(size=12), 2)), 2), r.normal(size=24)
        # a mixer measured with the voltage offset outside the narrower ranges
        self.voff, self.ioff = r.uniform(.45e-3, .6e-3), r.uniform(1e-6, 3e-6)
        self.gap, self.rn = r.uniform(2.5e-3, 2.7e-3), r.uniform(10, 20)
        self.noise = r.normal(size=3000)
        self.power, self.tn, self.c0 = r.uniform(.5, 3), r.uniform(60, 120), self.gap - r.uniform(.4e-3, .6e-3)
        self.freq = 230.
        self.scale = r.uniform(.97, 1.03, 3)
        self.kk = r.uniform(-1, 1)

    def circuit(self, nf=2, npp=2, n=4):
        from qmix.circuit import EmbeddingCircuit
        c = EmbeddingCircuit(nf, npp, vb_min=.1, vb_max=1.5, vb_npts=n, vgap=2.8e-3, rn=14.)
        c.freq[1:] = self.fr[1:nf + 1]
        c.vt[1:, 1:] = self.vt[:nf, :npp]
        c.zt[1:, 1:] = self.zt[:nf, :npp]
        return c

    def junction(self, v):
        a = np.abs(v)
        s = .5 * (1 + np.tanh((a - self.gap) / 6e-5))
        bump = .1 * self.gap / self.rn * np.tanh(v / 8e-5) * np.exp(-(v / 8e-5)**2 / 18)
        return np.sign(v) * (a / (20 * self.rn) * (1 - s) + (a - .1e-3) / self.rn * s) + bump + 2e-8 * np.sin(4e4 * v)

    def dciv(self):
        v = np.linspace(-6.1e-3, 6.1e-3, 1500)
        return np.column_stack(((v + self.voff) * 1e3, (self.junction(v) + self.ioff) * 1e3))

    def iv(self):
        v = np.linspace(-6.1e-3, 6.1e-3, 1300)
        i = .6 * self.junction(v) + .2 * (self.junction(v + .9e-3) + self.junction(v - .9e-3))
        return np.column_stack(((v + self.voff) * 1e3, (i + self.ioff) * 1e3))

    def power_of(self, v, t=None):
        p = self.power * (5. + 5.8e3 * np.sqrt(v**2 + .09e-6) / 2)
        if t is not None:
            p = p + self.power * (t + self.tn) * .6 * np.exp(-((v - self.c0) / .3e-3)**2)
        return p

    def dcif(self, t=None):
        v = np.linspace(-.4e-3, 6.2e-3, 900)
        return np.column_stack(((v + self.voff) * 1e3, self.power_of(v, t)))

    def dc(self):
        if not hasattr(self, "_dc"):
            from qmix.exp.iv_data import dciv_curve
            self._dc = dciv_curve(self.dciv(), npts=1201, vrn=(3.5e-3, 4.5e-3))[2]
        return self._dc

    def measured(self):
        """a measured mixer, each sweep scaled a little"""
        if not hasattr(self, "_m"):
            from qmix.exp.exp_data import DCData
            self._m = DCData(data("dciv")[::2] * [1, self.scale[0]], data("dcif"), npts=401, vrn=(3.5e-3, 4.5e-3), voffset=1e-4, ioffset=9.7e-6,
                             vshot=(4.5e-3, 5.5e-3), verbose=False)
        return self._m

    def resp(self):
        if not hasattr(self, "_rp"):
            from qmix.respfn import RespFnPolynomial
            self._rp = RespFnPolynomial(30, verbose=False)
        return self._rp

    def value(self, lit):
        x = ast.literal_eval(lit)
        return getattr(self, "at_" + x[1:])() if isinstance(x, str) and x.startswith("@") else x

    def vj2(self, n=4):
        vj = np.zeros((3, 3, n), complex)
        vj[1, 1] = 1.6 * self.w / self.w.max()
        vj[1, 2], vj[2, 1], vj[2, 2] = .05j, .3 * self.w, -.02
        return vj

    def at_matrix(self):
        from qmix.qtcurrent import interpolate_respfn
        from qmix.respfn import RespFnPolynomial
        with quiet():
            return interpolate_respfn(self.circuit(2, 1), RespFnPolynomial(17, verbose=False), (15, 15))

    def at_vj(self):
        vj = np.zeros((2, 2, 3), complex)
        vj[1, 1] = .31 + .1j
        return vj


# --- circuits ---------------------------------------------------------------------

@kind
def EmbeddingCircuit(k, *a, **o):
    from qmix.circuit import EmbeddingCircuit
    return attrs(EmbeddingCircuit(*a, **o))


@kind
def available_power(k, *a, **o): return k.circuit().available_power(*a, **o)


def of(k, name, first, *a, **o):
    c = k.circuit()
    getattr(c, name)(first, *a, **o)
    return attrs(c)


@kind
def set_available_power(k, *a, **o): return of(k, "set_available_power", 30e-9, *a, **o)
@kind
def set_alpha(k, *a, **o): return of(k, "set_alpha", .9, *a, **o)
@kind
def set_freq(k, *a, **o): return of(k, "set_freq", 300e9, *a, **o)
@kind
def set_name(k, *a, **o): return of(k, "set_name", "pump", *a, **o)


@kind
def save_info(k, *a, **o):
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="qmix-opt-") as d:
        os.chdir(d)
        try:
            k.circuit().save_info(*a, **o)
            return [[f, open(f).read()] for f in sorted(os.listdir("."))]
        finally:
            os.chdir(here)


# --- currents ---------------------------------------------------------------------

@kind
def qtcurrent(k, *a, **o):
    from qmix.qtcurrent import qtcurrent
    f = k.fr
    return qtcurrent(k.vj2()[:, :2], k.circuit(2, 1), k.resp(), [0., f[1], f[2], f[2] - f[1]], *a, **o)


def hb_circuit(k):
    c = k.circuit(1, 1, 3)
    c.vt[1, 1] = .35 + .2 * k.w[0] / k.w[3]
    c.zt[1, 1] = .5 + .3j * k.kk
    return c


@kind
def harmonic_balance(k, *a, **o):
    from qmix.harmonic_balance import harmonic_balance
    r = harmonic_balance(hb_circuit(k), k.resp(), *a, **o)
    return [x for x in r if not isinstance(x, (list, tuple))][:3] if isinstance(r, tuple) else r


@kind
def check_hb_error(k, *a, **o):
    from qmix.harmonic_balance import harmonic_balance, check_hb_error
    if not hasattr(k, "_hb"):
        k._hb = {}
        for nb in (1, 2, 3, 4, 5, 14, 15):
            c = hb_circuit(k)
            if nb > 5:
                c.vt[1, 1] *= 4          # a drive at which the last terms count
            k._hb[nb] = c, harmonic_balance(c, k.resp(), num_b=nb, stop_rerror=1e-9, max_it=40, verbose=False)
    out = []
    for nb, (c, vj) in k._hb.items():
        for e in 10**np.arange(-6, -.4, .1):
            try:
                check_hb_error(vj * (1 + e), c, k.resp(), *a, **o)
                out.append(1)
            except AssertionError:
                out.append(0)
    return out


# --- functions --------------------------------------------------------------------

VS = np.r_[np.linspace(-2, 2, 41), 1., -1., .999, 1.02]


def model(name):
    def f(k, *a, **o):
        import qmix.mathfn.ivcurve_models as m
        return getattr(m, name)(VS.copy(), *a, **o)
    KINDS[name] = f


for _n in ("perfect_kk", "polynomial", "exponential", "expanded"):
    model(_n)


@kind
def gauss_conv(k, *a, **o):
    from qmix.mathfn.filters import gauss_conv
    return gauss_conv(k.x.copy(), *a, **o)


@kind
def slope_span_n(k, *a, **o):
    from qmix.mathfn.misc import slope_span_n
    return slope_span_n(np.arange(200.), k.flatx.copy(), *a, **o)


@kind
def kk_trans(k, *a, **o):
    from qmix.mathfn.kktrans import kk_trans
    return kk_trans(k.g.copy(), k.gi.copy(), *a, **o)


@kind
def remove_doubles_xy(k, *a, **o):
    from qmix.exp.clean_data import remove_doubles_xy
    x, y = (z.copy() for z in k.doubles)
    out = [remove_doubles_xy(x, y, *a, **o)]
    try:
        out.append(remove_doubles_xy(y, x, *a, **o))
    except AssertionError:
        out.append("refused")
    return out


@kind
def sort_matrix(k, *a, **o):
    from qmix.exp.clean_data import sort_matrix
    return sort_matrix(np.column_stack((k.doubles[1], -k.doubles[1]**2)), *a, **o)


@kind
def remove_doubles_matrix(k, *a, **o):
    from qmix.exp.clean_data import remove_doubles_matrix
    x, out = k.doubles[0], []
    y = np.sort(np.round(k.doubles[1]))
    for m in (np.column_stack((x, y)), np.column_stack((x, -y)), np.column_stack((-x, y))):
        try:
            out.append(remove_doubles_matrix(m, *a, **o))
        except AssertionError:
            out.append("refused")
    return out


# --- response functions -----------------------------------------------------------

def resp_out(r):
    v = np.linspace(-2.2, 2.2, 57)
    try:
        d = [r.didc(v), r.dikk(v)]
    except TypeError:       # the ideal curve has no slope
        d = []
    return [r.idc(v), r.ikk(v), d, r.voltage, r.current, r.current_kk]


@kind
def RespFn(k, **o):
    import qmix.respfn as rf
    return resp_out(rf.RespFn(k.g.copy(), k.gi.copy(), **o))


@kind
def RespFnFromIVData(k, **o):
    import qmix.respfn as rf
    return resp_out(rf.RespFnFromIVData(k.v.copy(), k.i.copy(), **o))


for _n in ("Perfect", "Polynomial", "Exponential"):
    def _f(k, _n=_n, **o):
        import qmix.respfn as rf
        return resp_out(getattr(rf, "RespFn" + _n)(**o))
    KINDS["RespFn" + _n] = _f


@kind
def RespFnAccepted(k, **o):
    """which of a family of response functions, from coarse to fine, are accepted"""
    import qmix.respfn as rf
    out = []
    for n in (20, 25, 31, 40, 50, 61, 76, 90, 110, 140, 180):
        try:
            rf.RespFnPolynomial(30, verbose=False, max_npts_dc=n, max_npts_kk=n + 40, **o)
            out.append(1)
        except (AssertionError, ValueError):
            out.append(0)
    return out


# --- experimental data ------------------------------------------------------------

@kind
def params(k, **o):
    from qmix.exp.parameters import params
    given = dict(params)
    given.update(o)
    return [[n, "none" if given.get(n, "missing") is None else given.get(n, "missing")] for n in PARAM_NAMES]


PARAM_NAMES = []


def dc_numbers(d):
    return [getattr(d, x) for x in ("vraw", "iraw", "vnorm", "inorm", "vgap", "igap", "fgap", "rn", "rsg", "offset", "vint", "rseries")]


@kind
def dciv_curve(k, **o):
    from qmix.exp.iv_data import dciv_curve
    v, i, dc = dciv_curve(k.dciv(), **o)
    return [v, i, dc_numbers(dc)]


@kind
def iv_curve(k, **o):
    from qmix.exp.iv_data import iv_curve
    return iv_curve(k.iv(), k.dc(), **o)


def meta(m):
    return [m.if_noise, m.corr, m.if_fit, m.shot_slope, m.vmax]


@kind
def dcif_data(k, **o):
    from qmix.exp.if_data import dcif_data
    d, m = dcif_data(k.dcif(), k.dc(), **o)
    return [d, meta(m)]


@kind
def if_data(k, **o):
    from qmix.exp.if_data import if_data
    r, best, m = if_data(k.dcif(293.), k.dcif(78.), k.dc(), freq=230., **o)
    return [r, best, meta(m)]


@kind
def if_response(k, **o):
    from qmix.exp.if_response import if_response
    f = np.linspace(4, 6, 21)
    cold = -52 + .2 * np.cos(3 * f)
    hot = cold + 10 * np.log10((293 + 60 + 2 * f) / (78 + 60 + 2 * f))
    hot[3], hot[5] = cold[3], cold[5] + 1e-3
    return if_response(np.column_stack((f, hot, cold)), **o)


@kind
def DCData(k, **o):
    from qmix.exp.exp_data import DCData
    return attrs(DCData(k.dciv(), k.dcif(), **o))


PKW = dict(npts=401, vrn=(3.5e-3, 4.5e-3), voffset=1e-4, ioffset=9.7e-6, freq=230.)


@kind
def PumpedData(k, **o):
    from qmix.exp.exp_data import PumpedData
    return attrs(PumpedData(data("iv")[::2] * [1, k.scale[1]], k.measured(), data("hot"), data("cold") * [1, k.scale[2]], analyze_iv=False, **PKW, **o))


@kind
def Recovery(k, **o):
    from qmix.exp.exp_data import PumpedData
    return attrs(PumpedData(data("iv")[::2] * [1, k.scale[1]], k.measured(), analyze_if=False, verbose=False, **PKW, **o))


@kind
def Figures(k, *a, **o):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from qmix.exp.exp_data import PumpedData
    if not hasattr(k, "_pd"):
        k._pd = PumpedData(data("iv")[::2], k.measured(), data("hot"), data("cold"), analyze_iv=False, verbose=False, vshot=(4.5e-3, 5.5e-3), **PKW)
    out = []
    for obj, names in ((k.measured(), ("plot_dciv",)),
                       (k._pd, ("plot_iv", "plot_if", "plot_ivif", "plot_noise_temp", "plot_yfac_noise_temp", "plot_gain_noise_temp", "plot_gain"))):
        for n in names:
            for axes in (1, 2):
                ax = plt.subplots(axes, 1)[1]
                try:
                    getattr(obj, n)(ax=ax, **o)
                    out.append([list(x.get_xlim()) for x in np.atleast_1d(ax)])
                except (TypeError, AttributeError, ValueError):
                    out.append("other axes")
                finally:
                    plt.close("all")
    return out


# --- terminal ---------------------------------------------------------------------

def terminal(name, *first):
    def f(k, *a, **o):
        import qmix.misc.terminal as t
        import qmix.misc.progbar as p
        g = getattr(t if hasattr(t, name) else p, name)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            for x in first:
                g(*x, *a, **o)
        return buf.getvalue()
    KINDS[name] = f


terminal("cprint", ("text",))
terminal("title", ("Title",), ("Titles",))
terminal("header", ("Header",))
terminal("pvalf", ("x", 1.25), ("z", 1 - 2j))
terminal("pvale", ("x", 1.25e-9), ("y", -3e12))
terminal("progress_bar", (1, 3), (3, 3))


# --- one round --------------------------------------------------------------------

def perform(name, kit, given, options, placed=0):
    """One call; the first `placed` options by place."""
    o = {n: kit.value(x) for n, x in given}
    args = [o.pop(n) for n in options[:placed]]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            r = KINDS[name](kit, *args, **o)
    except Exception as e:      # noqa: an exception is an outcome
        return {"ok": False, "exc": type(e).__name__, "res": []}
    shown = [len(buf.getvalue().splitlines())] if "verbose" in options else []
    return {"ok": True, "res": [FS(x) for x in parts([r, shown])]}


def table():
    out = tlc("Options_gen", workers=4).out
    t = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"HIST\|(.*)"$', out, re.M)]
    if len(t) < 30:
        raise Machinery("option table: " + out[-500:])
    return sorted(t, key=lambda x: x["kind"])


SLOW = {"PumpedData": 8, "Recovery": 4, "harmonic_balance": 10, "check_hb_error": 4, "DCData": 5, "RespFnExponential": 8, "RespFnPolynomial": 8, "RespFnFromIVData": 8, "RespFnAccepted": 2, "Figures": 2}


def o01(ctx):
    for t in table():
        names = [x[0] for x in t["options"]]
        if t["kind"] == "params":
            PARAM_NAMES[:] = names
        for rep in range(ctx.n(1, 4)):
            ctx.guard(t["kind"], one, ctx, t, names, rep)


def one(ctx, t, names, rep):
    name, rng = t["kind"], np.random.default_rng([ctx.seed, rep] + [ord(c) for c in t["kind"]])
    seed = int(rng.integers(1 << 30))
    todo = [([tuple(p) for p in c], 0) for c in t["calls"]]
    old = {o for c, _ in todo for o, _ in c} - set(names)
    every = {o: (d, x) for o, d, x in t["options"]}
    for i in range(ctx.n(SLOW.get(name, 24), 3 * SLOW.get(name, 24))):
        # the same options meant, in two forms
        base = {o: every[o][int(rng.random() < .3)] for o in names}
        if name == "EmbeddingCircuit" and rng.random() < .5:
            base["vb_min"] = "0"
        for form in range(2):
            c = [(o, x) for o, x in base.items() if x != every[o][0] or rng.random() < .4]
            placed = 0
            if t["placed"] and form:
                placed = int(rng.integers(0, len(names) + 1))
                c = [(o, base[o]) for j, o in enumerate(names) if j < placed or o in dict(c)]
            todo.append((c, placed))
    if t["placed"]:
        for n in range(1, len(names) + 1):      # every option by its place, other than its default
            todo.append(([(o, every[o][0]) for o in names[:n - 1]] + [(names[n - 1], every[names[n - 1]][1])], n))
    calls = []
    kit = Kit(seed)
    for again in range(1, 8):       # data whose shot noise is found without help
        r = perform(name, kit, [], names) if name in ("if_data", "dcif_data", "DCData") else {"ok": True, "res": []}
        if r["ok"] and F(1e99) not in [x for part in r["res"] for x in part]:
            break
        kit = Kit(seed + again)
    for c, placed in todo:
        calls.append(dict(given=[list(p) for p in c], placed=placed, **perform(name, kit, c, names, placed)))
    ctx.add({"op": "options", "case": name, "kind": name, "rep": rep, "calls": calls})
