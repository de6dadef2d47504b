"""Figures and reports: generators for V01 and V02.

Every figure is recorded as the curves it draws (data coordinates), the numbers and
words of their labels, the numbers of its other texts and the limits of its axes;
matplotlib's own drawing is not exercised (savefig is replaced by a stand-in that
records the figure and touches the file).
"""
import contextlib
import copy
import os
import re
import shutil
import tempfile
import numpy as np
from common import F, FS, Machinery, call_raw, project, quiet
from c_exp import DEF, IFPower, Junction, if_raw, jitter, quick_dc, record_raw
from c_rec import Pumped
from c_ses import digest

NUM = re.compile(r"[-+\u2212]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def numbers(text):
    """Decimal numbers of a text, with half a unit of their last digit.
    (A sign separated from its digits by a letter j belongs to them.)"""
    text = re.sub(r"\x1b\[\d+m", "", text)
    text = re.sub(r"([-+])\s*j\s*(?=[\d.])", r"\1", text)
    out = []
    for m in NUM.finditer(text):
        s = m.group().replace("\u2212", "-")
        if s[0] in "+-" and m.start() and (text[m.start() - 1].isalpha()):
            pass
        mant, _, ex = s.lower().partition("e")
        d = len(mant.partition(".")[2])
        out.append({"x": F(float(s)), "half": F(.50000001 * 10. ** (int(ex or 0) - d)), "d": d})
    return out


def words(text):
    return re.findall(r"[a-z]+", re.sub(r"\x1b\[\d+m", "", text).lower())


def shown(ax):
    """What an axis shows."""
    from matplotlib.text import Text
    lines = []
    for ln in ax.get_lines():
        x, y = np.asarray(ln.get_xdata(), float).ravel(), np.asarray(ln.get_ydata(), float).ravel()
        lab = ln.get_label()
        lab = "" if not isinstance(lab, str) or lab.startswith("_") else lab
        lines.append({"x": FS(x), "y": FS(y), "nums": numbers(lab), "words": words(lab)})
    texts = [t.get_text() for t in ax.texts]
    leg = ax.get_legend()
    keys = []
    if leg is not None:
        texts += [leg.get_title().get_text()]
        keys = [w for t in leg.get_texts() for w in words(t.get_text())]
    return {"lines": lines, "texts": [n for t in texts for n in numbers(t)], "keys": keys,
            "notes": [{"x": F(t.xy[0]), "y": F(t.xy[1]), "nums": numbers(t.get_text())} for t in ax.texts if hasattr(t, "xy")],
            "xlim": FS(ax.get_xlim()), "ylim": FS(ax.get_ylim()), "xlabel": words(ax.get_xlabel()), "ylabel": words(ax.get_ylabel())}


def cells(fig, grid):
    """Sampled cells of a colour mesh: for each wanted point the centre and value of the cell nearest to it."""
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if not hasattr(c, "get_coordinates") or c.get_array() is None or np.size(c.get_array()) < 1000:
                continue
            k = np.asarray(c.get_coordinates(), float)
            a = np.ma.filled(c.get_array(), np.nan).ravel()
            mid = .25 * (k[:-1, :-1] + k[1:, :-1] + k[:-1, 1:] + k[1:, 1:]) if k.shape[0] * k.shape[1] != a.size else k
            mid = mid.reshape(-1, 2)
            s = np.ptp(mid, axis=0)
            for x, y in grid:
                n = int((((mid - (x, y)) / s)**2).sum(1).argmin())
                out.append([F(mid[n, 0]), F(mid[n, 1]), F(a[n])])
            return out
    return out


class Studio:
    """Records the figures that calls make."""

    def __init__(self, grid=None):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.plt, self.Figure, self.grid = plt, Figure, grid or []
        self.dir = tempfile.mkdtemp(prefix="figures-")

    def __enter__(self):
        studio, self.old = self, self.Figure.savefig
        studio.saved = []

        def savefig(fig, fname, *a, **k):
            studio.saved.append((os.path.relpath(str(fname), studio.dir), studio.content(fig)))
            with open(fname, "wb") as f:
                f.write(b"figure")
        self.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.Figure.savefig = self.old
        self.plt.close("all")
        shutil.rmtree(self.dir, ignore_errors=True)

    def content(self, fig):
        return {"axes": [shown(a) for a in fig.axes], "cells": cells(fig, self.grid)}

    def files(self):
        return sorted(os.path.relpath(os.path.join(r, f), self.dir) for r, _, fs in os.walk(self.dir) for f in fs)

    def call(self, fn, *a, **k):
        """One plotting call: (figures it saved or left open, what happened around it)"""
        self.saved = []
        before, had = list(self.plt.get_fignums()), self.files()
        res, exc = call_raw(fn, *a, **k)
        after = list(self.plt.get_fignums())
        return res, {"raised": type(exc).__name__ if exc else "", "opened": len(set(after) - set(before)), "closed": len(set(before) - set(after)),
                     "files": [f for f in self.files() if f not in had], "saved": [f for f, _ in self.saved]}


# --- the objects ------------------------------------------------------------------

def if_part(rng, j):
    return dict(ifdata_npts=int(rng.choice([201, 261])), ifdata_sigma=[4e-5, 1e-4][rng.integers(2)], vshot=(float(j.vgap + .6e-3), 5.2e-3), vmax=6e-3)


def dc_object(rng, with_if=True):
    from qmix.exp.exp_data import DCData
    j, o, raw, d = quick_dc(rng)
    o = dict(o, npts=int(rng.choice([301, 361])), vleak=float(rng.uniform(1.3e-3, 2.1e-3)), area=float(rng.uniform(.5, 3)), filter_nwind=7, **if_part(rng, j))
    o["comment"] = "junction"
    power = IFPower(rng, j)
    a = (raw, if_raw(rng, power, dict(DEF), o["voffset"])) if with_if else (raw,)
    d, exc = call_raw(DCData, *a, verbose=False, **o)
    if exc is not None:
        raise exc
    d.power = power
    return j, o, d


def pumped_object(rng, j, o, d, with_if=True, recover=True, **more):
    from qmix.exp.exp_data import PumpedData
    fit = float(rng.uniform(.15, .4)), float(rng.uniform(.65, .87))
    remb, xemb = [(0., 1.), (float(rng.uniform(0, .2)), float(rng.uniform(.8, 1.5)))][rng.integers(2)], \
                 [(-1., 1.), (float(rng.uniform(-1.5, -.2)), float(rng.uniform(.2, 1.5)))][rng.integers(2)]
    kw = dict(o, npts=int(rng.choice([301, 401])), filter_data=False, fit_range=fit, remb_range=remb, xemb_range=xemb)
    if rng.random() < .3:
        del kw["fit_range"]
        fit = (.25, .8)
    g = Pumped(rng, d, 1.5, fit, (remb[0] + .1, remb[1]), xemb)
    va = np.linspace(*g.step, 160)
    if recover:
        ia = g.curve(va)
        lo, hi = rng.uniform(-.5, .2), rng.uniform(1.2, 2.1)
        vb, vc = np.linspace(lo, va[0], 60, endpoint=False), np.linspace(hi, va[-1], 60, endpoint=False)[::-1]
        v = np.r_[vb, va, vc]
        i = np.r_[d.resp.idc(vb), ia, d.resp.idc(vc)]
    else:
        v = np.linspace(rng.uniform(-.5, .2), rng.uniform(1.2, 2.1), 300)
        i = j.pumped(rng)(v * d.vgap) / d.igap
    raw = record_raw(rng, v * d.vgap + o["voffset"], i * d.igap + o["ioffset"], dict(DEF))
    a = [raw, d]
    if with_if:
        power = d.power if hasattr(d, "power") else IFPower(rng, j)
        g0, c0 = rng.uniform(.05, 2), j.vgap - .5e-3
        hi = float(rng.choice([6.4e-3, 5.7e-3]))
        for t in 400, 180:
            a.append(if_raw(rng, lambda v, t=t: power(v) + power.scale * g0 * np.exp(-((v - c0) / .3e-3)**2) * t, dict(DEF), o["voffset"], hi=hi))
    kw.update(more)
    if with_if and rng.random() < .4:
        kw.update([dict(best_pt="Min Tn"), dict(vbest=float(rng.uniform(1.6e-3, 2.4e-3)))][rng.integers(2)])
    p, exc = call_raw(PumpedData, *a, freq=g.freq, analyze_iv=recover, verbose=False, **kw)
    if exc is not None:
        raise exc
    p.fit = fit
    p.ranges = remb, xemb
    return p


def dc_record(d):
    r = {"v": FS(d.voltage), "i": FS(d.current), "vgap": F(d.vgap), "igap": F(d.igap), "rn": F(d.rn), "rsg": F(d.rsg), "vint": F(d.vint),
         "vleak": F(d.vleak), "ileak": F(d.ileak), "hasif": d.if_data is not None}
    if d.if_data is not None:
        r["if"] = {"v": FS(d.if_data[:, 0]), "p": FS(d.if_data[:, 1]), "lv": FS(d.shot_slope[:, 0]), "lp": FS(d.shot_slope[:, 1]), "noise": F(d.if_noise)}
    return r


def pumped_record(p, sim=None):
    r = {"v": FS(p.voltage), "i": FS(p.current), "freq": F(p.freq), "vph": F(p.vph), "hasif": p.if_hot is not None, "haszt": p.zt is not None}
    if p.if_hot is not None:
        r["if"] = {"v": FS(p.if_hot[:, 0]), "hot": FS(p.if_hot[:, 1]), "cold": FS(p.if_cold[:, 1]), "tn": FS(p.tn), "gain": FS(p.gain), "best": int(p.idx_best) + 1}
    if p.zt is not None:
        r["z"] = {"re": F(complex(p.zt).real), "im": F(complex(p.zt).imag), "vt": F(p.vt), "fit": [F(x) for x in p.fit],
                  "remb": [F(x) for x in p.ranges[0]], "xemb": [F(x) for x in p.ranges[1]]}
        if sim is not None:
            r["sim"] = {"v": FS(sim[0]), "i": FS(sim[1])}
    return r


def simulate(p):
    """The pumped curve of the recovered circuit, through the library."""
    from qmix.circuit import EmbeddingCircuit
    from qmix.harmonic_balance import harmonic_balance
    from qmix.qtcurrent import qtcurrent
    c = EmbeddingCircuit(1, 1)
    c.freq[1], c.zt[1, 1], c.vt[1, 1] = p.freq * 1e9 / p.dciv.fgap, p.zt, p.vt
    with quiet():
        vj = harmonic_balance(c, p.dciv.resp_smear, num_b=30, verbose=False)
        i = qtcurrent(vj, c, p.dciv.resp_smear, [0, c.freq[1]], num_b=30, verbose=False)
    return c.vb, i[0].real


# --- V01 ----------------------------------------------------------------------------

TWO = {"if_noise", "ivif", "noise_temp", "yfac", "gain_tn"}           # drawn on two axes
DC_KINDS = {"dciv": "plot_dciv", "offset": "plot_offset", "if_noise": "plot_if_noise"}
P_KINDS = {"iv": "plot_iv", "if": "plot_if", "ivif": "plot_ivif", "noise_temp": "plot_noise_temp", "yfac": "plot_yfac_noise_temp",
           "gain_tn": "plot_gain_noise_temp", "gain": "plot_gain", "err_surf": "plot_error_surface", "simulated": "plot_simulated"}
R_KINDS = {"resp": "plot", "resp_interp": "plot_interpolation", "resp_current": "show_current"}
NEEDS_IF = {"if_noise", "if", "ivif", "noise_temp", "yfac", "gain_tn", "gain"}
NO_VMAX = {"offset", "if_noise", "err_surf", "resp", "resp_interp", "resp_current"}
ALL_FILES = {"dciv.png": "dciv", "dcif.png": "if_noise", "-iv.png": "iv", "-iv-if.png": "ivif", "-tn.png": "noise_temp", "-err-surf.png": "err_surf", "-sim.png": "simulated"}


def on_grid(p, rng):
    if p.zt is None:
        return [], []
    ix = [(int(a), int(b)) for a, b in zip(rng.integers(0, 101, 30), rng.integers(0, 201, 30))] + [(0, 0), (100, 200), (0, 200), (100, 0)]
    re, im = np.linspace(*p.ranges[0], 101) * p.rn, np.linspace(*p.ranges[1], 201) * p.rn
    return [(re[a], im[b]) for a, b in ix], [{"a": a + 1, "b": b + 1, "err": F(p.err_surf[a, b])} for a, b in ix]


def one_figure(ctx, rng, st, kind, fn, base, watch, via=None, probe=()):
    via = via or str(rng.choice(["new", "axes", "file"]))
    kw, vmax = {}, 4.
    if kind not in NO_VMAX and rng.random() < .5:
        vmax = kw["vmax_plot"] = float(rng.choice([3., 3.5, round(rng.uniform(2.8, 5.5), 2)]))
    given, name = None, ""
    if via == "axes":
        fig, axs = st.plt.subplots(2 if kind in TWO else 1, sharex=kind in TWO)
        given = axs
        kw["ax"] = tuple(axs) if kind in TWO else axs
    elif via == "file":
        name = "figure%d.png" % len(st.files())
        kw["fig_name"] = os.path.join(st.dir, name)
    before = [digest(w) for w in watch]
    res, what = st.call(fn, **kw)
    same = [digest(w) for w in watch] == before
    if via == "file":
        fig_rec = st.saved[-1][1] if st.saved else {"axes": [], "cells": []}
        ret = "none" if res is None else "other"
    else:
        axes = list(res) if isinstance(res, (tuple, list, np.ndarray)) else [res]
        ok = all(hasattr(a, "get_lines") for a in axes) and len(axes) == (2 if kind in TWO else 1)
        if ok and via == "axes":
            ok = all(a is b for a, b in zip(axes, np.ravel(given)))
        if via == "axes":
            fig_rec = st.content(np.ravel(given)[0].get_figure())
        else:
            fig_rec = st.content(axes[0].get_figure()) if ok else {"axes": [], "cells": []}
            ok = ok and axes[0].get_figure().number in st.plt.get_fignums()
        ret = "axes" if ok else "other"
    st.plt.close("all")
    ctx.add(dict({"op": "figure", "case": kind + " " + via, "kind": kind, "via": via, "vmax": F(vmax), "vmaxgiven": kind not in NO_VMAX, "figure": fig_rec, "ret": ret,
                  "what": what, "want": [name] if name else [], "same": same, "two": kind in TWO, "probe": list(probe)}, **base))


def batch(ctx, rng, st, obj, which, base, watch, sub, probe=()):
    """plot_all: which files, each with its figure"""
    folder = os.path.join(st.dir, "out%d" % rng.integers(10**6))
    kw = {} if rng.random() < .5 else {"vmax_plot": float(round(rng.uniform(2.8, 5.5), 2))}
    args = []
    if sub is not None:
        args = [sub]
    before = [digest(w) for w in watch]
    res, what = st.call(obj.plot_all, folder, *args, **kw)
    same = [digest(w) for w in watch] == before
    rel = lambda f: os.path.relpath(os.path.join(st.dir, f), folder).replace("\\", "/")
    saved = list(st.saved)
    ctx.add({"op": "batch", "case": which, "which": which, "sub": "default" if sub is None else "flat" if sub == "" else "given",
             "files": sorted(rel(f) for f in what["files"]), "raised": what["raised"], "left": what["opened"], "same": same,
             "names": {"freq": str(obj.freq) if which == "pumped" else "", "given": {k: x.rstrip("/") for k, x in (sub if isinstance(sub, dict) else {"dc": sub or ""}).items()}},
             "hasif": obj.if_data is not None if which == "dc" else obj.if_hot is not None, "haszt": which == "pumped" and obj.zt is not None})
    for f, content in saved:
        kind = next((k for s, k in sorted(ALL_FILES.items(), key=lambda t: -len(t[0])) if os.path.basename(f).endswith(s)), "unknown")
        ctx.add(dict({"op": "figure", "case": "batch " + kind, "kind": kind, "via": "batch", "vmax": F(kw.get("vmax_plot", 4.)), "vmaxgiven": kind not in NO_VMAX,
                      "figure": content, "ret": "none", "what": dict(what, files=[], saved=[], opened=0, closed=0), "want": [], "same": same,
                      "two": kind in TWO, "probe": list(probe)}, **base))


def some_folders(rng):
    k = ["Pumped IV curve", "IV + IF", "Impedance recovery", "Impedance recovery (sim)", "Noise temperature"]
    return {x: str(rng.choice(["a", "b/", "c/d", "e%d" % n])) for n, x in enumerate(k)}


def overall(ctx, rng, st, d, items):
    from qmix.exp.exp_data import plot_overall_results
    data = []
    n = int(rng.integers(4, 7))
    for f in np.sort(rng.choice(np.arange(150, 400), n, replace=False)) + np.round(rng.random(n), 1):
        p = copy.copy(items[rng.integers(len(items))])
        p.freq = float(f)
        p.vph = p.freq * 1e9 / p.fgap
        p.tn_best, p.g_db, p.alpha, p.zj_if = (float(x) for x in rng.uniform((30, -12, .3, 20), (300, 4, 1.4, 400)))
        p.zw, p.zt, p.vt = complex(*rng.uniform(-1, 1.5, 2)), complex(*rng.uniform(-1, 1.5, 2)), float(rng.uniform(.05, .6))
        p.if_noise = float(rng.uniform(2, 40))
        p.fit_good, p.good_if_noise_fit = bool(rng.random() < .7), bool(rng.random() < .7)
        data.append(p)
    data[0].fit_good = data[0].good_if_noise_fit = True
    folder = os.path.join(st.dir, "overall%d" % rng.integers(10**6))
    kw, vmax = {}, 4.
    if rng.random() < .5:
        vmax = kw["vmax_plot"] = float(round(rng.uniform(3, 5), 2))
    rest = [{}, {"tn_max": 400.}, {"f_range": [100., 420.]}, {"figsize": (5, 4)}][rng.integers(4)]
    before = [digest(w) for w in data + [d]]
    res, what = st.call(plot_overall_results, d, data, folder, **kw, **rest)
    same = [digest(w) for w in data + [d]] == before
    figs = {os.path.basename(f): c for f, c in st.saved}

    def text(name):
        f = os.path.join(folder, "csv", name)
        return open(f).read().splitlines() if os.path.exists(f) else []

    def row(s):
        return {"nums": numbers(s), "bools": re.findall("True|False", s), "words": words(s)}
    try:
        curve = np.loadtxt(os.path.join(folder, "csv", "dciv-data.txt"))
    except Exception:
        curve = np.zeros((0, 2))
    ctx.add({"op": "overall", "case": "overall", "raised": what["raised"], "left": what["opened"], "same": same, "d": dc_record(d), "vmax": F(vmax),
             "fgap": F(d.fgap), "files": sorted(os.path.relpath(os.path.join(st.dir, f), folder) for f in what["files"]),
             "figs": [{"name": k, "axes": v["axes"]} for k, v in sorted(figs.items())],
             "p": [{"v": FS(p.voltage), "i": FS(p.current), "freq": F(p.freq), "vph": F(p.vph), "tn": F(p.tn_best), "gain": F(p.g_db), "alpha": F(p.alpha),
                    "rdyn": F(p.zj_if), "zw": [F(p.zw.real), F(p.zw.imag)], "zt": [F(p.zt.real), F(p.zt.imag)], "vt": F(p.vt), "noise": F(p.if_noise),
                    "good": p.fit_good, "ifgood": p.good_if_noise_fit} for p in data],
             "tables": {"results": [row(s) for s in text("results.txt")[1:]], "emb": [row(s) for s in text("recovered-emb.txt")],
                        "info": [row(s) for s in text("dciv-info.txt")], "dc": {"shape": list(np.atleast_2d(curve).shape), "v": FS(np.atleast_2d(curve)[:, 0]), "i": FS(np.atleast_2d(curve)[:, -1])}}})


def folders(ctx, rng, st):
    """initialize_dir: the folders exist afterwards, what was there stays"""
    from qmix.exp.exp_data import initialize_dir
    base = os.path.join(st.dir, "results%d" % rng.integers(10**6))
    again = rng.random() < .5
    if again:
        os.makedirs(os.path.join(base, "csv"))
        open(os.path.join(base, "csv", "mine.txt"), "w").close()
    given = base + "/" if rng.random() < .5 else base
    res, what = st.call(initialize_dir, given)
    dirs = sorted(os.path.relpath(os.path.join(r, x), base) for r, ds, _ in os.walk(base) for x in ds)
    ctx.add({"op": "folders", "case": "folders", "raised": what["raised"], "dirs": dirs, "kept": not again or os.path.exists(os.path.join(base, "csv", "mine.txt"))})


def debugged(ctx, rng, st):
    """debug=True shows figures and changes nothing else"""
    from qmix.exp.iv_data import dciv_curve, iv_curve
    j, o, raw, d = quick_dc(rng)
    o = dict(o, npts=301, filter_data=bool(rng.integers(2)), filter_nwind=7, vgap=float(j.vgap))
    if rng.random() < .5:
        o["rseries"] = .3
    if rng.random() < .5:
        del o["voffset"], o["ioffset"]
    f = [lambda **k: dciv_curve(raw, **k)[:2], lambda **k: iv_curve(raw, d.dc, **k)][rng.integers(2)]
    a, e1 = call_raw(f, **o)
    keep = raw.copy()
    b, what = st.call(f, debug=True, **o)
    st.plt.close("all")
    ok = e1 is None and not what["raised"]
    ctx.add({"op": "debug", "case": "debug", "plain": "" if e1 is None else type(e1).__name__, "raised": what["raised"], "same": np.array_equal(raw, keep),
             "a": [project(x) for x in a] if ok else [], "b": [project(x) for x in b] if ok else []})


def v01(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(2, 10)):
        with Studio() as st:
            def round_():
                objs = []
                for with_if in (True, False):
                    j, o, d = dc_object(rng, with_if)
                    base = {"d": dc_record(d)}
                    for kind, m in DC_KINDS.items():
                        if kind in NEEDS_IF and not with_if:
                            continue
                        for via in ("new", "axes", "file"):
                            ctx.guard(kind, one_figure, ctx, rng, st, kind, getattr(d, m), base, [d], via)
                    for sub in (None, "", "sub/dir"):
                        ctx.guard("dc batch", batch, ctx, rng, st, d, "dc", base, [d], sub)
                    full = []
                    for p_if, p_z in ((True, True), (True, False), (False, True), (False, False)) if with_if else ((True, True), (False, False)):
                        p = pumped_object(rng, j, o, d, p_if, p_z)
                        sim = simulate(p) if p_z else None
                        pb = dict(base, p=pumped_record(p, sim))
                        st.grid, probe = on_grid(p, rng)
                        for kind, m in P_KINDS.items():
                            if kind in NEEDS_IF and not p_if or kind in ("err_surf", "simulated") and not p_z:
                                continue
                            for via in [None] if kind in ("err_surf", "simulated") else ("new", "axes", "file") if p_if and p_z else [None]:
                                ctx.guard(kind, one_figure, ctx, rng, st, kind, getattr(p, m), pb, [p, d], via, probe if kind == "err_surf" else ())
                        sub = [None, "", some_folders(rng)][rng.integers(3)]
                        ctx.guard("batch", batch, ctx, rng, st, p, "pumped", pb, [p, d], sub, probe)
                        st.grid = []
                        if p_if and p_z:
                            full.append(p)
                    for _ in range(2 if with_if else 1):
                        ctx.guard("overall", overall, ctx, rng, st, d, full)
            ctx.guard("round", round_)

            def responses():
                from qmix import respfn
                made = [lambda: respfn.RespFnPolynomial(int(rng.integers(20, 50)), verbose=False), lambda: respfn.RespFnExponential(verbose=False, rsg=float(rng.uniform(200, 900))),
                        lambda: dc_object(rng, False)[2].resp]
                for mk in made:
                    with quiet():
                        r = mk()
                    o = {"r": {"v": FS(r.voltage), "i": FS(r.current), "kv": FS(r.voltage_kk), "ki": FS(r.current_kk), "idc": FS(r.idc(r.voltage)), "ikk": FS(r.ikk(r.voltage_kk))}}
                    for kind, m in R_KINDS.items():
                        ctx.guard(kind, one_figure, ctx, rng, st, kind, getattr(r, m), o, [r])
            ctx.guard("responses", responses)
            for _ in range(3):
                ctx.guard("folders", folders, ctx, rng, st)
            for _ in range(8):
                ctx.guard("debug", debugged, ctx, rng, st)
