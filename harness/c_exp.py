"""Experimental data: generators for E02-E08."""
import json
import os
import re
import numpy as np
from common import F, FS, FN, Machinery, project, call, call_raw, failed

HERE = os.path.dirname(os.path.abspath(__file__))
VU = {"uV": 1e-6, "mV": 1e-3, "V": 1.}
IU = {"uA": 1e-6, "mA": 1e-3, "A": 1.}
# the documented defaults (written here, not read from the package)
def multiplier(rng):
    """A gain of the measurement system: near one, or far from it (an uncorrected amplifier or attenuator)."""
    return float(rng.uniform(.4, 2.5)) if rng.random() < .5 else float(10. ** rng.uniform(-3, 3))


DEF = dict(v_fmt="mV", i_fmt="mA", v_multiplier=1., i_multiplier=1., voffset=None, ioffset=None,
           voffset_range=(-1e-3, 1e-3), filter_data=True, filter_theta=.785, filter_nwind=21, filter_npoly=3,
           npts=6001, rseries=None, vmax=6e-3, vrn=(3.5e-3, 4.5e-3), vrsg=2e-3, vgap=None,
           ifdata_npts=3000, ifdata_sigma=1e-5, vleak=2e-3, area=1.5)


def opt(x):
    return {"is": x is not None, "x": F(0. if x is None else x)}


def options(rng, **kw):
    """(keyword arguments for the call, recorded options)"""
    o = dict(DEF)
    o.update(kw)
    args = dict(kw)
    for k in list(args):
        if k in DEF and args[k] == DEF[k] and rng.random() < .5:
            del args[k]
    r = o["voffset_range"]
    vor = [-r, r] if isinstance(r, (int, float)) else list(r)
    shot = o.get("vshot") or ()
    if shot and not isinstance(shot[0], (list, tuple)):
        shot = [shot]
    rec = {"vfmt": o["v_fmt"], "ifmt": o["i_fmt"], "vmul": F(o["v_multiplier"]), "imul": F(o["i_multiplier"]),
           "voff": opt(o["voffset"]), "ioff": opt(o["ioffset"]), "vor": [F(x) for x in vor],
           "filter": bool(o["filter_data"]), "theta": F(o["filter_theta"]), "nwind": o["filter_nwind"],
           "npoly": o["filter_npoly"], "npts": o["npts"], "rs": {"is": o["rseries"] is not None, "ohm": F(o["rseries"] or 0.)},
           "vmax": F(o["vmax"]), "vrn": [F(x) for x in o["vrn"]], "vrsg": F(o["vrsg"]), "vgap": opt(o["vgap"]),
           "ifnpts": o["ifdata_npts"], "sigma": opt(o["ifdata_sigma"]), "vshot": [[F(a), F(b)] for a, b in shot]}
    return args, rec


class Junction:
    """An SIS junction whose I-V curve is known: rsg below the gap, the line
    (v - vint)/rn above it, a smooth step between them."""

    def __init__(self, rng, vint=None, small=False):
        self.vgap = rng.uniform(2.5e-3, 2.9e-3)
        if small:
            self.vgap *= rng.uniform(.3, 1)
        self.rn = rng.uniform(5., 40.)
        self.rsg = self.rn * rng.uniform(10, 40)
        self.vint = rng.choice([0., rng.uniform(0, .4e-3)]) if vint is None else vint
        self.w = rng.uniform(.02e-3, .04e-3)
        self.igap = self.vgap / self.rn
        self.ic, self.dv = 0., 1e-4

    def supercurrent(self, rng):
        """something at the origin that makes the offset observable"""
        self.ic = rng.uniform(.05, .3) * self.igap
        self.dv = rng.uniform(.05e-3, .15e-3)
        return self

    def i(self, v):
        a = np.abs(v)
        s = .5 * (1 + np.tanh((a - self.vgap) / (2 * self.w)))
        return np.sign(v) * (a / self.rsg * (1 - s) + (a - self.vint) / self.rn * s) \
            + self.ic * np.tanh(v / self.dv) * np.exp(-(v / self.dv)**2 / 18)

    def pumped(self, rng):
        """a photon-assisted step: copies of the curve moved by the photon voltage"""
        j, vph, a = self, rng.uniform(.5e-3, 1.2e-3), rng.uniform(.1, .35)
        return lambda v: (1 - 2 * a) * j.i(v) + a * (j.i(v + vph) + j.i(v - vph))


def jitter(rng, v):
    """Strictly distinct voltages near v."""
    d = np.min(np.abs(np.diff(v)))
    return v + rng.uniform(-.3, .3, len(v)) * d


def sweep(rng, j, kind, n, lo, hi, hyst=0.):
    """Voltages in recording order and currents (hysteresis: a different gap on
    the way back)."""
    if kind == "up":
        v = jitter(rng, np.linspace(lo, hi, n))
        return v, j.i(v)
    if kind == "down":
        v = jitter(rng, np.linspace(lo, hi, n))[::-1].copy()
        return v, j.i(v)
    a = 0. if lo < 0 else .5 * (lo + hi)
    a += rng.uniform(-.05e-3, .05e-3)
    k = n // 4
    first, second = (hi, lo) if kind == "loop+" else (lo, hi)
    v = np.r_[np.linspace(a, first, k, endpoint=False), np.linspace(first, second, 2 * k, endpoint=False), np.linspace(second, a, k)]
    v = v + rng.uniform(-.3, .3, len(v)) * (hi - lo) / (2 * k)
    i = j.i(v)
    away = np.r_[np.ones(k), np.zeros(k), np.ones(k), np.zeros(k)][:len(v)] > 0
    i = np.where(away, i, i * (1 - hyst))
    return v, i


def record_raw(rng, v, i, o, nan=False):
    """The file somebody would have written for this physical sweep."""
    raw = np.column_stack((v / VU[o["v_fmt"]] / o["v_multiplier"], i / IU[o["i_fmt"]] / o["i_multiplier"]))
    if nan:
        out = []
        for row in raw:
            if rng.random() < .1:
                out.append(rng.choice([[np.nan, row[1]], [row[0], np.nan], [np.nan, np.nan]]))
            out.append(row)
        raw = np.array(out)
        if rng.random() < .5:
            raw = np.vstack(([[np.nan, 0.]], raw, [[1., np.nan]]))
    return raw


OUTS = ("voltage", "current", "vraw", "iraw", "vnorm", "inorm", "vgap", "igap", "fgap", "rn", "rsg", "vint", "voff", "ioff")


def dc_out(res):
    v, i, dc = res
    out = {"voltage": project(v), "current": project(i), "vraw": project(dc.vraw), "iraw": project(dc.iraw),
           "vnorm": project(dc.vnorm), "inorm": project(dc.inorm), "vgap": project(dc.vgap), "igap": project(dc.igap),
           "fgap": project(dc.fgap), "rn": project(dc.rn), "rsg": project(dc.rsg), "vint": project(dc.vint),
           "voff": project(dc.offset[0]), "ioff": project(dc.offset[1]),
           "rs": {"is": dc.rseries is not None, "ohm": F(dc.rseries or 0.)}}
    return out


NOTPLANTED = {"is": False}


def import_dc(ctx, rng, raw, o, planted=NOTPLANTED, case="", record=True):
    from qmix.exp.iv_data import dciv_curve
    args, rec_o = options(rng, **o)
    keep = raw.copy()
    res, exc = call_raw(dciv_curve, raw, **args)
    rec = {"op": "dciv", "case": case, "raw": {"v": FS(raw[:, 0]), "i": FS(raw[:, 1])}, "o": rec_o,
           "same": np.array_equal(raw, keep, equal_nan=True), "made": exc is None, "out": {}, "planted": planted}
    if exc is None:
        try:
            rec["out"] = dc_out(res)
        except Exception:
            rec["made"] = False
    if record:
        ctx.add(rec)
        if rng.random() < .12:
            watch(ctx, rec, dciv_curve, (raw,), args, res)
    return res


def watch(ctx, rec, f, a, args, plain):
    """The same import with debug=True: one figure per step, same results."""
    import matplotlib.pyplot as plt
    left = len(plt.get_fignums())
    plt.close("all")
    show, plt.show = plt.show, lambda *a, **k: None
    try:
        res, exc = call_raw(f, *a, **dict(args, debug=True))
        steps = []
        for k in plt.get_fignums():
            c = [l for x in plt.figure(k).axes for l in x.lines][:1]
            steps.append([{"v": FS(l.get_xdata(orig=True)), "i": FS(l.get_ydata(orig=True))} for l in c])
    finally:
        plt.show = show
        plt.close("all")
    ctx.add({"op": "steps", "of": rec["op"], "case": rec["case"], "raw": rec["raw"], "o": rec["o"], "dc": rec.get("dc", {}), "left": left,
             "raised": exc is not None, "steps": steps, "asplain": exc is None and plain is not None and
             all(np.array_equal(x, y, equal_nan=True) for x, y in zip(res[:2], plain[:2])),
             "voff": F(res[2].offset[0] if exc is None and len(res) > 2 else 0.), "ioff": F(res[2].offset[1] if exc is None and len(res) > 2 else 0.)})


def plan(rng, **kw):
    """Random import options."""
    o = dict(v_fmt=str(rng.choice(list(VU))), i_fmt=str(rng.choice(list(IU))), v_multiplier=1., i_multiplier=1.,
             npts=int(rng.choice([201, 400, 501])), vmax=float(rng.choice([4e-3, 5e-3, 6e-3])), filter_data=bool(rng.random() < .5))
    if rng.random() < .3:
        o["v_multiplier"], o["i_multiplier"] = multiplier(rng), multiplier(rng)
    if o["filter_data"]:
        o["filter_nwind"] = int(rng.choice([5, 11, 21]))
        o["filter_npoly"] = int(rng.choice([1, 2, 3]))
        o["filter_theta"] = float(rng.choice([.785, .6]))
    o["vgap"] = float(rng.uniform(2.5e-3, 2.9e-3))      # such coarse curves do not show the gap
    o.update(kw)
    return o


def near(j):
    """fit range and subgap voltage for a junction"""
    return dict(vrn=(float(j.vgap + .5e-3), 5e3), vrsg=2e-3)


# --- E02 -------------------------------------------------------------------

def replay_sweeps(ctx):
    from qmix.exp.iv_data import iv_curve, DCIVData
    rng = ctx.rng(5)
    r = ctx.tlc("OnePass_MC", "OnePass_gen.cfg", timeout=900)
    hists = sorted(json.loads(m) for m in re.findall(r'"HIST\|(.*?)"', r.out))
    if len(hists) < 500:
        raise Machinery("TLC produced %d sweeps" % len(hists))
    dc = DCIVData(vraw=None, iraw=None, vnorm=None, inorm=None, vgap=1., igap=1., fgap=1., rn=1., rsg=1., offset=(0., 0.), vint=0., rseries=None)
    for h in hists:
        def one():
            unit, cur = "V", rng.choice(list(IU))   # so that grid and samples coincide exactly
            v = np.array(h, float)
            i = rng.permutation(len(h)) + 1.
            raw = np.column_stack((v, i))
            gap = VU[unit]
            d = dc._replace(vgap=gap, igap=IU[cur])
            keep = raw.copy()
            res, exc = call_raw(iv_curve, raw, d, v_fmt=str(unit), i_fmt=str(cur), vmax=2 * gap, npts=5, filter_data=False)
            ok = exc is None and isinstance(res, tuple) and len(res) == 2
            ctx.add({"op": "sweep", "case": "sweep %s" % h, "raw": {"v": FS(v), "i": FS(i)}, "grid": FS(np.arange(-2., 3.)),
                     "same": np.array_equal(raw, keep), "made": ok,
                     "voltage": project(res[0]) if ok else {}, "current": project(res[1]) if ok else {}})
        ctx.guard("sweep", one)


def flat(res):
    v, i, dc = res
    return np.r_[v, i, dc.vgap * 1e3, dc.igap * 1e3, dc.rn, dc.rsg, dc.vint * 1e3, dc.vraw * 1e3, dc.iraw * 1e3]


def e02(ctx):
    from qmix.exp.iv_data import dciv_curve, iv_curve
    replay_sweeps(ctx)
    rng = ctx.rng()
    for rep in range(ctx.n(180, 540)):
        def loop():
            j = Junction(rng)
            kind = str(rng.choice(["up", "down", "loop+", "loop-"]))
            lo = float(rng.choice([-5e-3, -4.5e-3, .1e-3]))
            v, i = sweep(rng, j, kind, int(rng.choice([160, 240, 320])), lo, 5.2e-3, hyst=.05)
            o = plan(rng, voffset=float(rng.uniform(-1e-4, 1e-4)), ioffset=float(rng.uniform(-1e-6, 1e-6)), **near(j))
            raw = record_raw(rng, v, i, o, nan=rng.random() < .4)
            import_dc(ctx, rng, raw, o, case=kind)
        ctx.guard("loop", loop)
    for rep in range(ctx.n(180, 540)):
        def same():
            j = Junction(rng)
            v, i = sweep(rng, j, "up", 200, -4.8e-3, 5.2e-3)
            base = plan(rng, v_fmt="V", i_fmt="A", v_multiplier=1., i_multiplier=1., voffset=1e-5, ioffset=2e-7, **near(j))
            if rng.random() < .5:
                base["rseries"] = .5
            other = dict(base)
            vv, ii, nan = v, i, False
            what = rng.choice(["units", "direction", "missing", "multiplier", "all"])
            if what in ("units", "all"):
                other["v_fmt"], other["i_fmt"] = str(rng.choice(["uV", "mV"])), str(rng.choice(["uA", "mA"]))
            if what in ("direction", "all"):
                vv, ii = v[::-1], i[::-1]
            if what in ("missing", "all"):
                nan = True
            if what in ("multiplier", "all"):
                other["v_multiplier"], other["i_multiplier"] = float(rng.uniform(.3, 3)), float(rng.uniform(.3, 3))
            r1 = record_raw(rng, v, i, base)
            r2 = record_raw(rng, vv, ii, other, nan)
            a1, a2 = options(rng, **base)[0], options(rng, **other)[0]
            pumped = rng.random() < .3
            if pumped:
                dc = dciv_curve(r1, **a1)[2]
                f = lambda r, a: np.concatenate(iv_curve(r, dc, **a))
            else:
                f = lambda r, a: flat(dciv_curve(r, **a))
            ctx.add({"op": "same", "case": what, "a": call(f, r1, a1), "b": call(f, r2, a2), "rtol": F(1e-6), "atol": F(1e-8)})
        ctx.guard("same", same)
    for rep in range(ctx.n(1, 4)):
        ctx.guard("measured", measured_loop, ctx, rng)


def data(name):
    return np.loadtxt(os.path.join(HERE, "data", name + ".csv"))


def measured_loop(ctx, rng):
    raw = data("dciv")
    o = dict(voffset=1e-4, ioffset=9.7e-6, vrn=(3.5e-3, 4.5e-3), npts=1001, filter_data=bool(rng.integers(2)))
    if not o["filter_data"]:
        o["vgap"] = 2.72e-3     # too noisy to show the gap unfiltered
    import_dc(ctx, rng, raw, o, case="measured")


# --- E03 -------------------------------------------------------------------

def planted(j, voff=0., ioff=0., tolv=1e-15, toli=1e-18, tolrn=1e-5, tolrsg=1e-2, tolvint=1e-8):
    return {"is": True, "voff": F(voff), "ioff": F(ioff), "tolv": F(tolv), "toli": F(toli), "vgap": F(j.vgap),
            "rn": F(j.rn), "tolrn": F(tolrn), "rsg": F(j.rsg), "tolrsg": F(tolrsg), "vint": F(j.vint), "tolvint": F(tolvint)}


def fine_plan(rng, j, **kw):
    """Options with which the gap can be seen."""
    o = dict(v_fmt=str(rng.choice(list(VU))), i_fmt=str(rng.choice(list(IU))), v_multiplier=1., i_multiplier=1.,
             npts=int(rng.choice([1501, 2001])), vmax=float(rng.choice([4.5e-3, 6e-3])), filter_data=bool(rng.random() < .5))
    o["vrn"] = (float(j.vgap + rng.uniform(.7e-3, 1e-3)), float(rng.choice([5e3, 4.9e-3])))
    o["vrsg"] = float(rng.choice([2e-3, rng.uniform(1e-3, 1.8e-3)]))
    if rng.random() < .3:
        o["v_multiplier"], o["i_multiplier"] = multiplier(rng), multiplier(rng)
    o.update(kw)
    return o


def e03(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(135, 405)):
        def one():
            j = Junction(rng)
            kind = str(rng.choice(["up", "down", "loop+"]))
            v, i = sweep(rng, j, kind, int(rng.choice([1600, 2400])), float(rng.choice([-5.2e-3, .05e-3])), 5.3e-3)
            o = fine_plan(rng, j, voffset=0., ioffset=0.)
            given = rng.random() < .3
            if given:
                o["vgap"] = float(j.vgap * rng.uniform(.95, 1.05))
            raw = record_raw(rng, v, i, o)
            p = planted(j)
            if given:
                p["vgap"] = F(o["vgap"])
            import_dc(ctx, rng, raw, o, p, case=kind)
        ctx.guard("junction", one)

    for rep in range(ctx.n(16, 60)):
        ctx.guard("dcdata", dcdata, ctx, rng)
    for rep in range(ctx.n(1, 3)):
        ctx.guard("measured", measured_dcdata, ctx, rng)


def dcdata(ctx, rng, raw=None, **kw):
    import qmix.exp
    from qmix.exp.exp_data import DCData
    from qmix.respfn import RespFnFromIVData
    if raw is None:
        j = Junction(rng)
        v, i = sweep(rng, j, "up", 1600, -5.2e-3, 5.3e-3)
        kw = fine_plan(rng, j, voffset=0., ioffset=0.)
        raw = record_raw(rng, v, i, kw)
    if rng.random() < .7:
        kw["area"], kw["vleak"] = float(rng.uniform(.5, 3)), float(rng.uniform(1e-3, 2.2e-3))
    if rng.random() < .5:
        kw["v_smear"] = float(rng.uniform(.01, .04))
    args, o = options(rng, **kw)
    smear = kw.get("v_smear", .02)
    d, exc = call_raw(DCData, raw, verbose=bool(rng.integers(2)), **args)
    rec = {"op": "dcdata", "case": "dcdata", "made": exc is None}
    if exc is None:
        dc = d.dc
        names = ("vgap", "igap", "fgap", "rn", "rsg", "vint")
        rec["got"] = {k: project(getattr(d, k)) for k in names + ("q", "rna", "jc", "ileak")}
        rec["got"]["voff"], rec["got"]["ioff"] = project(d.offset[0]), project(d.offset[1])
        rec["is"] = {k: F(getattr(dc, k)) for k in names}
        rec["is"]["voff"], rec["is"]["ioff"] = F(dc.offset[0]), F(dc.offset[1])
        rec["area"], rec["vleak"] = F(kw.get("area", 1.5)), F(kw.get("vleak", 2e-3))
        # the arrays must be the import's own
        rec["voltage"], rec["current"] = FS(d.voltage), FS(d.current)
        rec["struct"] = {"v": project(dc.vnorm), "i": project(dc.inorm)}
        x = np.sort(rng.uniform(-1, 1, 40)) * min(1.6, .95 * d.voltage.max())
        rec["resp"] = {"v": FS(x), "idc": FS(d.resp.idc(x)), "tol": F(3e-2)}
        want = RespFnFromIVData(d.voltage, d.current, check_error=False, verbose=False, v_smear=smear)
        plain = RespFnFromIVData(d.voltage, d.current, check_error=False, verbose=False, v_smear=None)
        rec["smeared"] = {"table": FS(np.r_[d.resp_smear.idc(x), d.resp_smear.ikk(x), d.resp.idc(x), d.resp.ikk(x)]),
                          "want": FS(np.r_[want.idc(x), want.ikk(x), plain.idc(x), plain.ikk(x)])}
        rec["comment"] = d.comment
    ctx.add(rec)
    return d


def measured_dcdata(ctx, rng):
    dcdata(ctx, rng, data("dciv"), vrn=(3.5e-3, 4.5e-3), npts=2001)


# --- E04 -------------------------------------------------------------------

def e04(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(90, 270)):
        def searched():
            j = Junction(rng).supercurrent(rng)
            kind = str(rng.choice(["up", "down", "loop+"]))
            v, i = sweep(rng, j, kind, 1600, -5.2e-3, 5.3e-3)
            vo, io = rng.uniform(-.12e-3, .12e-3), rng.uniform(-.01, .01) * j.igap
            o = fine_plan(rng, j, voffset_range=[(-1e-3, 1e-3), 1e-3, [-9e-4, 9e-4]][rng.integers(3)])
            k = rng.integers(4)
            if k == 0:
                o["voffset"] = float(vo + rng.uniform(-2e-5, 2e-5))
            elif k == 1:
                o["ioffset"] = float(io * rng.uniform(.8, 1.2))
            raw = record_raw(rng, v + vo, i + io, o)
            import_dc(ctx, rng, raw, o, planted(j, vo, io, 2e-5, 1e-3 * j.igap, 1e-4, 1e9, 1e-5), case="searched " + kind)
        ctx.guard("searched", searched)
    for rep in range(ctx.n(135, 405)):
        def given():
            j = Junction(rng)
            bi = rng.random() < .6
            lo = -5.2e-3 if bi else float(rng.choice([.05e-3, -.5e-3]))
            v, i = sweep(rng, j, str(rng.choice(["up", "down", "loop+"])), 300, lo, 5.3e-3)
            o = plan(rng, **near(j))
            vo, io = rng.uniform(-.3e-3, .3e-3), rng.uniform(-.02, .02) * j.igap
            vo, io = rng.choice([vo, vo, 0.]), rng.choice([io, io, 0.])
            k = rng.integers(3)
            if bi or k == 0:
                o["voffset"], o["ioffset"] = float(vo), float(io)
            elif k == 1:
                o["voffset"] = float(vo)
            if rng.random() < .5:
                o["rseries"] = float(rng.choice([rng.uniform(0, .12), 0., .05]) * j.rn)
            raw = record_raw(rng, v + vo, i + io, o)
            if rng.random() < .3:
                raw[rng.integers(len(raw)), 1] = o.get("ioffset") or 0.      # zero current
            if rng.random() < .2 and "ioffset" in o:                     # an offset given as zero is given
                o["voffset"], o["ioffset"] = [(0., o["ioffset"]), (o["voffset"], 0.), (0, 0)][rng.integers(3)]
            import_dc(ctx, rng, raw, o, case="given")
        ctx.guard("given", given)
    for rep in range(ctx.n(90, 270)):
        ctx.guard("pumped", pumped, ctx, rng)
    for rep in range(ctx.n(60, 180)):
        def series():
            """The series resistance put into a measurement comes out again."""
            from qmix.exp.iv_data import dciv_curve
            j = Junction(rng)
            v, i = sweep(rng, j, "up", 2400, -5.2e-3, 5.3e-3)
            rs = rng.uniform(.1, 2)
            o = fine_plan(rng, j, voffset=0., ioffset=0., npts=2001, filter_data=False, v_fmt="V", i_fmt="A", vmax=4e-3)
            o["v_multiplier"] = o["i_multiplier"] = 1.
            f = lambda raw, a: flat_clean(dciv_curve(raw, **a))
            a1, a2 = dict(o), dict(o, rseries=float(rs))
            ctx.add({"op": "same", "case": "series resistance", "a": call(f, np.column_stack((v, i)), a1),
                     "b": call(f, np.column_stack((v + i * rs, i)), a2), "rtol": F(1e-6), "atol": F(1e-8)})
        ctx.guard("series", series)
    ctx.guard("measured", lambda: import_dc(ctx, rng, data("dciv"), dict(vrn=(3.5e-3, 4.5e-3), npts=2001, rseries=.5), case="measured"))


def flat_clean(res):
    v, i, dc = res
    return np.r_[v, i, dc.vgap * 1e3, dc.rn, dc.rsg, dc.vint * 1e3]


def pumped(ctx, rng, full=False):
    from qmix.exp.iv_data import iv_curve, dciv_curve
    j = Junction(rng)
    n = int(rng.choice([200, 300]))
    o = plan(rng, **near(j))
    o["voffset"], o["ioffset"] = float(rng.uniform(-1e-4, 1e-4)), float(rng.uniform(-.01, .01) * j.igap)
    if rng.random() < .3:
        o["rseries"] = float(rng.uniform(0, .12) * j.rn)
    v, i = sweep(rng, j, "up", n, -5.2e-3, 5.3e-3)
    res, exc = call_raw(dciv_curve, record_raw(rng, v, i, o), **options(rng, **o)[0])
    if exc is not None:
        ctx.add({"op": "pumped", "case": "dc import", "same": True, "made": False})
        return
    dc = res[2]
    p = dict(o)
    k = rng.integers(4)
    if k == 0:
        p["voffset"], p["ioffset"] = float(rng.uniform(-1e-4, 1e-4)), float(rng.uniform(-.01, .01) * j.igap)
        if rng.random() < .5:
            p[str(rng.choice(["voffset", "ioffset"]))] = float(rng.choice([0., -0.]))
        if rng.random() < .3:
            p["voffset"], p["ioffset"] = 0, 0.
    elif k == 1:
        del p["voffset"], p["ioffset"]
    elif k == 2:
        p["voffset" if rng.random() < .5 else "ioffset"] = None
    p["npts"] = int(rng.choice([101, 200, 401]))
    p["vmax"] = float(rng.choice([2.5e-3, 4e-3, 6e-3, 9e-3]))
    g = j.pumped(rng)
    kind = str(rng.choice(["up", "down", "loop+", "loop-"]))
    lo, hi = float(rng.choice([-8e-3, -5e-3, .2e-3, 1.5e-3])), float(rng.choice([2.4e-3, 3.5e-3, 5e-3, 8e-3]))
    jj = Junction.__new__(Junction)
    jj.i = g
    v, i = sweep(rng, jj, kind, n, lo, hi, hyst=.03)
    raw = record_raw(rng, v, i, p, nan=rng.random() < .3)
    keep = raw.copy()
    args, rec_o = options(rng, **p)
    out, exc = call_raw(iv_curve, raw, dc, **args)
    ok = exc is None and isinstance(out, tuple) and len(out) == 2
    ctx.add({"op": "pumped", "case": kind, "raw": {"v": FS(raw[:, 0]), "i": FS(raw[:, 1])}, "o": rec_o,
             "dc": {"voff": F(dc.offset[0]), "ioff": F(dc.offset[1]), "vgap": F(dc.vgap), "igap": F(dc.igap)},
             "same": np.array_equal(raw, keep, equal_nan=True), "made": ok,
             "voltage": project(out[0]) if ok else {}, "current": project(out[1]) if ok else {}})
    if ok and rng.random() < .15:
        watch(ctx, ctx.records[-1], iv_curve, (raw, dc), args, out)


# --- E05 -------------------------------------------------------------------

def e05(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(240, 720)):
        ctx.guard("pumped", pumped, ctx, rng)
    for rep in range(ctx.n(12, 40)):
        ctx.guard("pumpdata", pumpdata, ctx, rng)


def quick_dc(rng, **kw):
    """A DCData of a known junction."""
    from qmix.exp.exp_data import DCData
    j = Junction(rng, **kw)
    v, i = sweep(rng, j, "up", 1600, -6.2e-3, 6.3e-3)
    o = dict(voffset=float(rng.uniform(-1e-4, 1e-4)), ioffset=1e-6, npts=1501, vrn=(float(j.vgap + .9e-3), 5e3))
    raw = record_raw(rng, v + o["voffset"], i + 1e-6, dict(DEF))
    return j, o, raw, DCData(raw, verbose=False, **o)


def pumpdata(ctx, rng):
    from qmix.exp.exp_data import PumpedData
    from qmix.exp.iv_data import iv_curve
    j, o, _, d = quick_dc(rng)
    g = j.pumped(rng)
    v = jitter(rng, np.linspace(*sorted(rng.uniform([-6e-3, 3e-3], [.5e-3, 6e-3])), 1200))
    raw = record_raw(rng, v + o["voffset"], g(v) + 1e-6, dict(DEF))
    freq = float(rng.uniform(150, 400))
    kw = dict(o, npts=int(rng.choice([501, 1001])), vmax=float(rng.choice([4e-3, 6e-3])))
    p, exc = call_raw(PumpedData, raw, d, freq=freq, analyze_iv=False, verbose=False, **kw)
    rec = {"op": "pumpdata", "case": "pumpdata", "made": exc is None, "freq": F(freq), "dc": {"fgap": F(d.dc.fgap)}}
    if exc is None:
        want = iv_curve(raw, d.dc, freq=freq, **kw)
        n = len(p.voltage)
        rec.update({"voltage": project(p.voltage), "current": project(p.current), "rdyn": project(p.rdyn),
                    "want": {"v": project(want[0]), "i": project(want[1])},
                    "at": [int(x) for x in np.unique(rng.integers(13, n - 12, 60))], "vph": project(p.vph),
                    "carried": [{"got": project(a), "want": F(b)} for a, b in
                                ((p.vgap, d.vgap), (p.igap, d.igap), (p.fgap, d.fgap), (p.rn, d.rn), (p.vint, d.vint),
                                 (p.offset[0], d.offset[0]), (p.offset[1], d.offset[1]), (p.freq, freq))]})
    ctx.add(rec)


# --- E06, E07 ----------------------------------------------------------------

def dc_struct(rng, j, voff, rs=None):
    """A DC I-V import as it comes out of dciv_curve, for a known junction."""
    from qmix.exp.iv_data import DCIVData
    v = np.linspace(-6.5e-3, 6.6e-3, int(rng.choice([301, 501])))
    rs = rs or 0.       # vraw is what the system read, with the drop over the series resistance
    return DCIVData(vraw=v + rs * j.i(v), iraw=j.i(v), vnorm=v / j.vgap, inorm=j.i(v) / j.igap, vgap=j.vgap, igap=j.igap, fgap=1.602176634e-19 * j.vgap / 6.62607015e-34,
                    rn=j.rn, rsg=j.rsg, offset=(voff, 0.), vint=float(j.vint), rseries=None)


def dc_rec(dc):
    return {"voff": F(dc.offset[0]), "vgap": F(dc.vgap), "vint": F(dc.vint), "vraw": FS(dc.vraw), "iraw": FS(dc.iraw)}


class IFPower:
    """IF power against (true) bias voltage: a shot-noise line above the gap, less
    of it below, Josephson-like features."""

    def __init__(self, rng, j, noise=None, scale=None):
        self.j = j
        self.scale = scale or 10 ** rng.uniform(-9, 3)             # arbitrary units per K
        self.noise = rng.uniform(2, 30) if noise is None else noise  # K at the intercept
        self.a = rng.uniform(.1, .9, 3)
        self.wave = 0.      # ripple on the line, in K

    def line(self, v):
        """the line's value in K at bias v [V]"""
        return self.noise + 5.8e3 * (v - self.j.vint) + self.wave * np.sin(1.3e4 * v)

    def __call__(self, v):
        a = np.abs(v)
        s = .5 * (1 + np.tanh((a - self.j.vgap) / .05e-3))
        below = self.noise + 3 * self.a[0] + 4 * self.a[1] * np.exp(-((a - .6e-3) / .2e-3)**2)
        return self.scale * ((1 - s) * below + s * self.line(a))

    def planted(self):
        """slope and intercept against the normalised voltage, in arbitrary units"""
        s = self.scale * 5.8e3 * self.j.vgap
        return {"is": True, "slope": F(s), "icpt": F(self.scale * (self.noise - 5.8e3 * self.j.vint))}


def if_options(rng, j, npts=None, auto=False):
    o = dict(v_fmt=str(rng.choice(list(VU))), v_multiplier=float(rng.choice([1., multiplier(rng)])),
             ifdata_npts=int(npts or rng.choice([300, 400, 601])), vmax=float(rng.choice([5e-3, 6e-3])))
    o["ifdata_sigma"] = [None, 4e-5, 2., 1e-4][rng.integers(4)]
    if not auto:
        a, b = j.vgap + .5e-3, o["vmax"] - rng.uniform(.5e-3, .6e-3)
        m = .5 * (a + b)
        o["vshot"] = [(a, b), [[a, m - .2e-3], [m + .1e-3, b]], ((a, m), (m, b)),
                      [[a, m + .1e-3], [m - .2e-3, b]], ((m, b), (a, m - .2e-3)), [(a, b), (m - .2e-3, m)]][rng.integers(6)]
    return o


def if_raw(rng, power, o, voff, n=700, lo=-.5e-3, hi=6.4e-3, nan=False):
    v = jitter(rng, np.linspace(lo, hi, n))
    if rng.random() < .4:
        v = rng.permutation(v)
    p = power(v)
    vm = v
    if o.get("rseries") is not None:
        # the voltage the system reads: bias plus the drop over the series resistance
        vm = v + o["rseries"] * power.j.i(v)
    raw = np.column_stack(((vm + voff) / VU[o["v_fmt"]] / o["v_multiplier"], p))
    if nan:
        raw = np.insert(raw, rng.integers(0, n, 5), [[np.nan, 1.], [1., np.nan], [np.nan, np.nan], [0., np.nan], [np.nan, 0.]], axis=0)
    return raw


def meta_rec(m):
    return {"noise": project(m.if_noise), "corr": project(m.corr), "fit": project(m.if_fit), "vmax": project(m.vmax), "line": project(m.shot_slope)}


def import_dcif(ctx, rng, raw, o, dc, planted=NOTPLANTED, case=""):
    from qmix.exp.if_data import dcif_data
    args, rec_o = options(rng, **o)
    keep, keepdc = raw.copy(), [dc.vraw.copy(), dc.iraw.copy()]
    out, exc = call_raw(dcif_data, raw, dc, **args)
    rec = {"op": "dcif", "case": case, "raw": {"v": FS(raw[:, 0]), "i": FS(raw[:, 1])}, "o": rec_o, "dc": dc_rec(dc), "planted": planted,
           "same": np.array_equal(raw, keep, equal_nan=True) and np.array_equal(dc.vraw, keepdc[0]) and np.array_equal(dc.iraw, keepdc[1]),
           "made": False}
    if exc is None:
        try:
            rec["data"], rec["meta"], rec["made"] = project(out[0]), meta_rec(out[1]), True
        except Exception:
            pass
    ctx.add(rec)
    return out


def e06(ctx):
    from qmix.exp.if_data import dcif_data, if_data
    rng = ctx.rng()
    for rep in range(ctx.n(135, 405)):
        def formula():
            j = Junction(rng, small=rng.random() < .3)
            voff = float(rng.choice([0., rng.uniform(-1e-4, 1e-4)]))
            o = if_options(rng, j)
            if rng.random() < .4:
                o["rseries"] = float(rng.uniform(0, 1.5))
            dc = dc_struct(rng, j, voff, o.get("rseries"))
            power = IFPower(rng, j, noise=rng.choice([None, -5., 80., .1, 49.6, 50.4, -.4]))
            power.wave = float(rng.choice([0., 1., 5.]))
            hi = float(rng.choice([6.4e-3, 5.2e-3]))
            lo = float(rng.choice([-.5e-3, -.5e-3, .4e-3]))         # zero power outside the measured range
            if rng.random() < .15 and 2 * j.vgap < 5.5e-3:
                # (nearly) nothing in the given range: everything above twice the gap
                hi, o["vmax"] = 6.4e-3, 6e-3
                o["vshot"] = (4.5e-3, 4.5e-3 + float(rng.choice([1e-6, 0., -1e-3])))
            raw = if_raw(rng, power, o, voff, lo=lo, hi=hi, nan=rng.random() < .4)
            if rng.random() < .2:       # counts and microvolts
                o["v_fmt"], o["v_multiplier"] = "uV", 1.
                power.scale = 1000.
                raw = np.round(if_raw(rng, power, o, voff, lo=lo, hi=hi)).astype(int)
            import_dcif(ctx, rng, raw, o, dc, case="given range")
        ctx.guard("formula", formula)
    for rep in range(ctx.n(90, 270)):
        def known():
            j = Junction(rng)
            voff = float(rng.uniform(-1e-4, 1e-4))
            dc = dc_struct(rng, j, voff)
            auto = rng.random() < .5
            o = if_options(rng, j, npts=1500 if auto else None, auto=auto)
            o["ifdata_sigma"] = 1e-5 if auto else 4e-5
            power = IFPower(rng, j)
            import_dcif(ctx, rng, if_raw(rng, power, o, voff, n=1400), o, dc, power.planted(), case="planted" + (" auto" if auto else ""))
        ctx.guard("planted", known)
    for rep in range(ctx.n(60, 180)):
        def scale():
            """the power unit is arbitrary"""
            j = Junction(rng)
            dc = dc_struct(rng, j, 0.)
            auto = rng.random() < .3
            o = if_options(rng, j, npts=1200 if auto else None, auto=auto)
            power = IFPower(rng, j, scale=1.)
            raw = if_raw(rng, power, o, 0.)
            k = 10 ** rng.uniform(-9, 4)
            args = options(rng, **o)[0]

            def f(r):
                d, m = dcif_data(r, dc, **args)
                return np.r_[d.ravel(), m.if_noise, m.shot_slope.ravel(), float(m.if_fit), m.corr * (k if r is scaled else 1)]
            scaled = raw * [1, k]
            ctx.add({"op": "same", "case": "power unit", "a": call(f, raw), "b": call(f, scaled), "rtol": F(1e-6), "atol": F(1e-6)})
        ctx.guard("scale", scale)
    for rep in range(ctx.n(16, 80)):
        ctx.guard("supplied", hotcold, ctx, rng, True)
    ctx.guard("measured", measured_if, ctx, rng)


def measured_if(ctx, rng):
    from qmix.exp.iv_data import dciv_curve
    dc = dciv_curve(data("dciv"), vrn=(3.5e-3, 4.5e-3), npts=2001)[2]
    for shot in ((5.15013e-3, 5.65017e-3), ((4.20011e-3, 4.50013e-3), (5.15017e-3, 5.65019e-3))):
        o = dict(v_fmt="mV", v_multiplier=1., vshot=shot, rseries=[None, .5][rng.integers(2)], ifdata_npts=int(rng.choice([3000, 1000])))
        if o["ifdata_npts"] == 1000:
            o["ifdata_sigma"] = 2.
        import_dcif(ctx, rng, data("dcif"), o, dc, case="measured")


def hotcold(ctx, rng, supplied=None, pick=None):
    from qmix.exp.if_data import dcif_data, if_data, DCIFData
    j = Junction(rng, small=rng.random() < .4)
    voff = float(rng.choice([0., rng.uniform(-1e-4, 1e-4)]))
    o = if_options(rng, j)
    if rng.random() < .3:
        o["rseries"] = float(rng.uniform(0, 1.5))
    dc = dc_struct(rng, j, voff, o.get("rseries"))
    base = IFPower(rng, j)
    freq = float(rng.uniform(80, 900))
    th, tc = float(rng.choice([293., rng.uniform(200, 320)])), float(rng.choice([78., rng.uniform(4, 90)]))
    g0, w = rng.uniform(.05, 2), rng.uniform(.1e-3, .4e-3)
    c0 = j.vgap - rng.uniform(.3e-3, .8e-3)
    tn = rng.uniform(20, 400)
    if supplied is not True and rng.random() < .3:      # a hot-to-cold ratio above the ratio of the loads
        tn, g0 = -tc * rng.uniform(.4, .9), rng.uniform(1, 4)
    wave = rng.choice([0., 0., .5])

    def power(T):
        def p(v):
            g = g0 * np.exp(-((np.abs(v) - c0) / w)**2)
            return base(v) + base.scale * (g * (T + tn) + wave * np.sin(v * 2e4))
        p.j = j
        return p
    hi = float(rng.choice([6.4e-3, 5.3e-3]))
    hot = if_raw(rng, power(th), o, voff, hi=hi)
    cold = if_raw(rng, power(tc), o, voff, hi=hi, n=int(rng.choice([600, 700])))
    kw = dict(o, freq=freq, verbose=bool(rng.integers(2)))
    if th != 293. or rng.random() < .5:
        kw["t_hot"] = th
    if tc != 78. or rng.random() < .5:
        kw["t_cold"] = tc
    dcif = {"is": False}
    if supplied is None:
        supplied = rng.random() < .3
    if supplied:
        m = dcif_data(if_raw(rng, base, o, voff), dc, **options(rng, **o)[0])[1]
        if rng.random() < .5:   # any calibration must be taken as it is
            m = DCIFData(if_noise=float(rng.uniform(-5, 60)), corr=float(rng.uniform(.1, 10) / base.scale), if_fit=bool(rng.integers(2)),
                         shot_slope=rng.uniform(0, 5, (7, 2)), vmax=5e-3)
        kw["dcif"] = m
        dcif = {"is": True, "corr": F(m.corr), "noise": F(m.if_noise), "fit": project(m.if_fit), "line": project(m.shot_slope)}
    elif rng.random() < .3:
        kw["dcif"] = rng.choice([None, 0]) and None or DCIFData(if_noise=1., corr=None, if_fit=True, shot_slope=None, vmax=5e-3)
    pick = pick or str(rng.choice(["vbest", "gain", "tn", "gain"]))
    vbest = float(rng.choice([rng.uniform(.2, 1.1) * j.vgap, rng.uniform(1e-3, 3e-3), 0.], p=[.5, .4, .1]))
    if pick == "vbest":
        kw["vbest"] = vbest
        if rng.random() < .5:
            kw["best_pt"] = str(rng.choice(["Min Tn", "Max Gain", "whatever"]))
    elif pick == "tn":
        kw["best_pt"] = str(rng.choice(["Min Tn", "min tn", "MIN TN"]))
    elif pick == "bad":
        kw["best_pt"] = str(rng.choice(["Best", "", "gain"]))
    elif rng.random() < .5:
        kw["best_pt"] = str(rng.choice(["Max Gain", "max gain"]))
    args, rec_o = options(rng, **kw)
    keep = hot.copy(), cold.copy()
    out, exc = call_raw(if_data, hot, cold, dc, **args)
    rec = {"op": "hotcold", "case": pick, "hot": {"v": FS(hot[:, 0]), "i": FS(hot[:, 1])}, "cold": {"v": FS(cold[:, 0]), "i": FS(cold[:, 1])},
           "o": rec_o, "dc": dc_rec(dc), "dcif": dcif, "freq": F(freq), "thot": F(th), "tcold": F(tc), "pick": pick, "vbest": F(vbest),
           "same": np.array_equal(hot, keep[0]) and np.array_equal(cold, keep[1]), "mustraise": pick == "bad", "made": False}
    if exc is None:
        try:
            rec["res"], rec["best"], rec["meta"], rec["made"] = project(out[0]), int(out[1]), meta_rec(out[2]), True
        except Exception:
            pass
    ctx.add(rec)


def e07(ctx):
    from qmix.exp.exp_data import PumpedData, DCData
    from qmix.exp.if_data import if_data
    rng = ctx.rng()
    for rep in range(ctx.n(210, 630)):
        ctx.guard("hotcold", hotcold, ctx, rng)
    for rep in range(ctx.n(8, 24)):
        ctx.guard("bad criterion", hotcold, ctx, rng, None, "bad")
    for rep in range(ctx.n(16, 60)):
        ctx.guard("pumpbest", pumpbest, ctx, rng)


def pumpbest(ctx, rng):
    from qmix.exp.exp_data import PumpedData, DCData
    from qmix.exp.if_data import if_data
    j, o, dcraw, d = quick_dc(rng)
    o = dict(o, **{k: v for k, v in if_options(rng, j).items() if k not in ("v_fmt", "v_multiplier")})
    base = IFPower(rng, j)
    oo = dict(DEF)
    if rng.random() < .6:
        with_if, exc = call_raw(DCData, dcraw, if_raw(rng, base, oo, o["voffset"]), verbose=False, **o)
        if exc is not None:
            raise exc
        d = with_if
        meta = [(getattr(d, a), getattr(d.dcif, a)) for a in ("if_noise", "corr", "shot_slope", "if_fit")]
        if rng.random() < .4:            # a calibration known to be poor
            d.dcif = d.dcif._replace(if_fit=False)
    else:
        meta = []
    g = j.pumped(rng)
    v = jitter(rng, np.linspace(-5.5e-3, 5.5e-3, 1200))
    raw = record_raw(rng, v + o["voffset"], g(v) + 1e-6, oo)
    freq = float(rng.uniform(150, 400))
    g0, c0 = rng.uniform(.05, 2), j.vgap - .5e-3
    hot = if_raw(rng, lambda v: base(v) + base.scale * g0 * np.exp(-((v - c0) / .3e-3)**2) * 400, oo, o["voffset"])
    cold = if_raw(rng, lambda v: base(v) + base.scale * g0 * np.exp(-((v - c0) / .3e-3)**2) * 180, oo, o["voffset"])
    kw = dict(o, freq=freq, verbose=False)
    if rng.random() < .5:
        kw["best_pt"] = "Min Tn"
    elif rng.random() < .3:
        kw["vbest"] = float(rng.uniform(1.5e-3, 2.5e-3))
    mirrored = [{"got": project(a), "want": project(b)} for a, b in meta]
    p, exc = call_raw(PumpedData, raw, d, hot, cold, analyze_iv=False, **kw)
    rec = {"op": "best", "case": "best", "made": exc is None}
    if exc is None:
        want, exc2 = call_raw(if_data, hot, cold, d.dc, dcif=d.dcif, **kw)
        if exc2 is not None:
            raise exc2
        res, best, meta = want
        rec.update({"res": project(res), "n": len(res), "best": int(best), "gotbest": int(p.idx_best),
                    "got": {k: project(getattr(p, k)) for k in ("tn_best", "gain_best", "g_db", "v_best", "zj_if")},
                    "tn": project(p.tn), "gain": project(p.gain), "voltage": FS(p.voltage), "current": FS(p.current), "rn": F(p.rn),
                    "powers": {"hot": project(p.if_hot), "cold": project(p.if_cold)},
                    "meta": [{"got": project(a), "want": project(b)} for a, b in
                             ((p.if_noise, meta.if_noise), (p.corr, meta.corr), (p.shot_slope, meta.shot_slope), (p.good_if_noise_fit, meta.if_fit))] + mirrored})
    ctx.add(rec)
    if rng.random() < .5:
        parts(ctx, rng, raw, d, hot, cold, kw)


def parts(ctx, rng, raw, d, hot, cold, kw):
    """What is there to analyse decides what is analysed; the rest is not affected."""
    from qmix.exp.exp_data import PumpedData
    ifs = ("if_hot", "if_cold", "tn", "gain", "idx_best", "tn_best", "g_db", "if_noise", "shot_slope", "good_if_noise_fit")
    rec = {"op": "parts", "case": "parts", "trials": []}
    hard = int(rng.integers(16))
    for k in range(16):
        h, c, aif, aiv = (bool(k >> b & 1) for b in range(4))
        if aiv and k != hard:
            continue
        p, exc = call_raw(PumpedData, raw, d, hot if h else None, cold if c else None, **dict(kw, analyze_if=aif, analyze_iv=aiv))
        t = {"hot": h, "cold": c, "aif": aif, "aiv": aiv, "made": exc is None}
        if exc is None:
            t["ifs"] = [getattr(p, a, None) is not None for a in ifs]
            t["ivs"] = [getattr(p, a, None) is not None for a in ("zt", "vt", "zw", "alpha")]
            t["iv"] = [project(getattr(p, a)) for a in ("voltage", "current", "rdyn", "vph")]
            if all(t["ifs"]):
                t["if"] = [project(getattr(p, a)) for a in ("tn", "gain", "tn_best")]
        rec["trials"].append(t)
    ctx.add(rec)


# --- E08 ---------------------------------------------------------------------

def e08(ctx):
    from qmix.exp.if_response import if_response
    rng = ctx.rng()
    for rep in range(ctx.n(600, 1800)):
        def one():
            n = int(rng.choice([1, 2, 3, 4, 10, 60]))
            if rep % 100 == 99:
                n = int(rng.integers(500, 3000))
            f = rng.choice([np.sort(rng.uniform(0, 20, n)), rng.uniform(0, 20, n)])
            th, tc, mx = 293., 78., 1e6
            kw = {}
            if rng.random() < .5:
                th, tc = float(rng.uniform(200, 350)), float(rng.uniform(4, 100))
                kw.update(t_hot=th, t_cold=tc)
            if rng.random() < .5:
                mx = float(10 ** rng.uniform(1.5, 7))
                kw["ifresp_maxtn"] = mx
            cold = rng.uniform(-80, 10, n)
            tn = 10 ** rng.uniform(-1, 8, n)
            y = (th + tn) / (tc + tn)
            k = rng.random(n)
            y = np.where(k < .15, rng.uniform(.3, 1, n), np.where(k < .3, rng.uniform(1, 8, n), y))
            y = np.where(rng.random(n) < .05, 1., y)
            hot = cold + 10 * np.log10(y)
            data = np.column_stack((f, hot, cold))
            if rng.random() < .1:
                data = np.round(data).astype(int)
                f, hot, cold = (x.astype(float) for x in data.T)
            if n != 3 and rng.random() < .5:
                data = data.T.copy()
            if rng.random() < .2:
                data = np.asfortranarray(data)
            keep = data.copy()
            out = call(if_response, data, **kw)
            ctx.add({"op": "ifresp", "case": "n=%d" % n, "f": FS(f), "hot": FS(hot), "cold": FS(cold), "thot": F(th), "tcold": F(tc),
                     "maxtn": F(mx), "out": out, "same": np.array_equal(data, keep)})
        ctx.guard("ifresp", one)
    for case, bad in (("1d", np.arange(9.)), ("4 columns", np.ones((5, 4))), ("list", [[1., 2., 3.]] * 4), ("3d", np.ones((3, 3, 3))),
                      ("none", None), ("text", "file.csv"), ("2x2", np.ones((2, 2)))):
        ctx.add({"op": "rejected", "case": case, "out": call(if_response, bad)})
