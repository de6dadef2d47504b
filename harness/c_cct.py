"""Embedding circuits: generators for C01-C04."""
import json
import os
import re
import numpy as np
from common import F, project, call, call_raw, failed, quiet, align, Machinery

NONE = {"ok": True, "kind": "none", "shape": [], "v": []}
FU = ["Hz", "MHz", "GHz", "THz", "V", "mV", "norm"]
PU = ["W", "mW", "uW", "nW", "pW", "fW", "dBm", "dBW"]


def dims(c):
    return {"ok": True, "kind": "f", "shape": [4], "v": [int(c.num_f), int(c.num_p), int(c.num_n), int(c.vb_npts)]}


def state(c):
    s = {k: project(getattr(c, k)) for k in ("freq", "vt", "zt", "vb", "fgap", "vgap", "igap", "rn")}
    s["dims"] = dims(c)
    s["names"] = [[str(x) for x in row] for row in c.comment]
    s["title"] = str(c.name)
    return s


def case_of(rng, u):
    return [u, u.lower(), u.upper(), u.swapcase()][rng.integers(4)]


def build(rng, **kw):
    from qmix.circuit import EmbeddingCircuit
    nf, np_ = kw.pop("nf", int(rng.integers(1, 5))), kw.pop("np_", int(rng.integers(1, 4)))
    gap = {}
    how = kw.pop("gap", rng.integers(5))
    vgap, rn = float(rng.uniform(1e-3, 4e-3)), float(rng.uniform(3, 60))
    if how in (0, 1, 2):
        gap = {"vgap": vgap, "rn": rn}
    elif how == 3:
        gap = {"fgap": vgap * 2.4179e14, "rn": rn}
    if rng.random() < .5:
        gap["name"] = "cct %d" % rng.integers(100)
    npts = 401 if rng.random() < .02 else int(rng.integers(1, 6))
    c = EmbeddingCircuit(nf, np_, vb_npts=npts, **gap)
    return c


def fill(rng, c, friendly=False):
    nf, np_ = c.num_f, c.num_p
    c.freq[1:] = rng.uniform(.1, .6, nf)
    c.vt[1:, 1:] = align(rng, rng.normal(size=(nf, np_)) + 1j * rng.normal(size=(nf, np_)))
    c.zt[1:, 1:] = rng.uniform(.1, 2, (nf, np_)) + 1j * rng.normal(size=(nf, np_))
    if rng.random() < .3:       # impedances and voltages of any magnitude, purely resistive or reactive
        z, v = c.zt[1:, 1:], c.vt[1:, 1:]
        z *= 10. ** rng.uniform(-4, 2, z.shape)
        v *= 10. ** rng.uniform(-5, 2, v.shape)
        z.imag[rng.random(z.shape) < .3] = 0
        z.real[rng.random(z.shape) < .15] = 0


def do(rng, c, op, scratch):
    """Apply one operation of the specification's alphabet; returns its record."""
    from qmix.qtcurrent import qtcurrent
    from qmix.harmonic_balance import harmonic_balance
    f, p = int(rng.integers(1, c.num_f + 1)), int(rng.integers(1, c.num_p + 1))
    o = {"op": op, "f": f, "p": p, "name": ""}
    if op.startswith(("put_", "slice_", "inplace_")):
        how, name = op.split("_")
        cx = name in ("vt", "zt")
        x = complex(*rng.normal(size=2)) if cx else float(rng.normal())
        o["value"] = project(x)

        def act():
            a = getattr(c, name)
            if how == "put":
                k = int(rng.integers(a.size))
                o["at"] = k
                a[np.unravel_index(k, a.shape)] = x
            elif how == "slice":
                if rng.random() < .5:
                    a[...] = x
                else:
                    a[:] = x
            else:
                if name == "freq":
                    c.freq *= x
                elif name == "vt":
                    c.vt *= x
                elif name == "zt":
                    c.zt *= x
                else:
                    c.vb *= x
            return None
        o["out"] = call(act)
    elif op == "set_freq":
        u = FU[rng.integers(len(FU))]
        lo, hi = {"Hz": (1e10, 1e12), "MHz": (1e4, 1e6), "GHz": (10, 1000), "THz": (.01, 1), "V": (1e-4, 4e-3),
                  "mV": (.1, 4), "norm": (.01, 2)}[u]
        x = float(rng.uniform(lo, hi))
        if rng.random() < .15:
            u = str(rng.choice(["kHz", "", "uV", "GHzz", "eV", "rad"]))
        o["value"], o["unit"] = project(x), u.lower()
        o["out"] = call(c.set_freq, x, f, case_of(rng, u)) if rng.random() < .5 else \
            call(c.set_freq, value=x, f=f, units=case_of(rng, u))
        o["out"]["v"] = o["out"]["v"] if not o["out"]["ok"] else []
    elif op == "set_available_power":
        u = PU[rng.integers(len(PU))]
        x = float(rng.uniform(-120, 20)) if u[0] == "d" else float(10. ** rng.uniform(-15, 6))
        if rng.random() < .1:
            u = str(rng.choice(["kW", "", "dB", "mJ"]))
        o["value"], o["unit"] = project(x), u.lower()
        o["out"] = call(c.set_available_power, x, f, p, case_of(rng, u))
    elif op == "available_power":
        u = PU[rng.integers(len(PU))]
        if rng.random() < .1:
            u = str(rng.choice(["kW", "", "dB", "mJ"]))
        o["unit"] = u.lower()
        o["out"] = call(c.available_power, f, p, case_of(rng, u))
    elif op == "set_alpha":
        x = float(rng.uniform(.05, 2))
        zj = .66
        kw = {}
        if rng.random() < .6:
            zj = complex(rng.uniform(.3, 1), rng.normal() * .3) if rng.random() < .3 else float(rng.uniform(.3, 1))
            kw = {"zj": zj}
        o["value"], o["zj"] = project(x), project(zj)
        o["out"] = call(c.set_alpha, x, f, p, **kw)
    elif op == "current":
        from qtlib import Ohm

        def act():
            vj = c.initialize_vj()
            if (c.freq[1:] > 0).all():
                qtcurrent(vj, c, Ohm(), [0., c.freq[1]], num_b=1, verbose=False)
        o["out"] = call(act)
    elif op == "hb":
        from qtlib import Ohm

        def act():
            if (c.freq[1:] > 0).all():
                harmonic_balance(c, Ohm(), num_b=1, max_it=0, verbose=False)
        o["out"] = call(act)
    elif op == "save":
        o["out"] = call(c.save_info, os.path.join(scratch, "c.txt"))
    elif op == "print_info":
        o["out"] = call(c.print_info)
    elif op == "vph":
        o["out"] = call(lambda: c.vph)
    elif op == "str":
        o["out"] = call(lambda: str(c) + repr(c))
    elif op == "initialize_vj":
        o["out"] = call(c.initialize_vj)
    elif op == "set_name":
        name = str(rng.choice(["LO", "RF", "IF", "LO + 2", "", "sig %d" % rng.integers(99)]))
        kw = {k: v for k, v in dict(f=f, p=p).items() if v != 1 or rng.random() < .5}
        o["name"] = name
        o["out"] = call(c.set_name, name, **kw) if rng.random() < .5 else call(c.set_name, name, f, p)
    elif op == "label":
        o["name"] = "tone %d" % rng.integers(99)

        def act():
            c.comment[f][p] = o["name"]
        o["out"] = call(act)
    elif op == "lock":
        o["out"] = call(c.lock)
    elif op == "unlock":
        o["out"] = call(c.unlock)
    else:
        raise Machinery("unknown op " + op)
    o["state"] = state(c)
    return o


def history(ctx, rng, ops, **kw):
    c = build(rng, **kw)
    if rng.random() < .8:
        fill(rng, c)
    start = state(c)
    ctx.add({"op": "history", "case": "-".join(ops), "made": {"ok": True}, "start": start,
             "ops": [do(rng, c, op, ctx.scratch) for op in ops]})


def c01(ctx):
    from qmix.circuit import EmbeddingCircuit
    rng = ctx.rng()
    e, h = 1.602176634e-19, 6.62607015e-34

    def make(nf, np_, which, npts, lo, hi, style):
        vgap, rn = float(rng.uniform(1e-3, 4e-3)), float(rng.uniform(3, 60))
        g = {"vgap": None, "fgap": None, "rn": None}
        if which & 1:
            g["vgap"] = vgap
        if which & 2:
            g["fgap"] = vgap * e / h
        if which & 4:
            g["rn"] = rn
        if style == "int":
            g = {k: v if v is None else (int(v * 1e4) * 1e-4 if k == "vgap" else int(v)) for k, v in g.items()}
            if g["vgap"] and g["fgap"]:
                g["fgap"] = g["vgap"] * e / h
        kw = {k: v for k, v in g.items() if v is not None or rng.random() < .3}
        if lo != 0 or rng.random() < .5:
            kw["vb_min"] = lo
        kw["vb_max"], kw["vb_npts"] = hi, npts
        title = ""
        if rng.random() < .5:
            title = kw["name"] = str(rng.choice(["Test 1", "a: b", "", "x"]))
        c, ex = call_raw(EmbeddingCircuit, nf, np_, **kw)
        ctx.add({"op": "make", "args": {"num_f": nf, "num_p": np_, "npts": npts, "lo": F(lo), "hi": F(hi), "title": title,
                                        **{k: project(v) for k, v in g.items()}},
                 "made": {"ok": ex is None}, "start": state(c) if ex is None else {}})
    for rep in range(ctx.n(4, 30)):
        for nf in (1, 2, 3, 4):
            for np_ in (1, 2, 3, 5, 12):
                for which in range(8):
                    ctx.guard("make", make, nf, np_, which,
                              int(rng.choice([501, 1001, 2001]) if nf + np_ == 2 and which < 2 else rng.choice([1, 2, 3, 10, 57])),
                              float(rng.uniform(-2, 1)), float(rng.uniform(1, 3)), "float")
    for which in range(8):
        ctx.guard("make int", make, 2, 2, which, 11, 0., 2., "int")
        ctx.guard("make point", make, 1, 2, which, 4, 1., 1., "float")
    # defaults
    c, ex = call_raw(EmbeddingCircuit)
    ctx.add({"op": "make", "args": {"num_f": 1, "num_p": 1, "npts": 201, "lo": F(0), "hi": F(2), "title": "", "vgap": NONE,
                                    "fgap": NONE, "rn": NONE}, "made": {"ok": ex is None}, "start": state(c) if ex is None else {}})
    for bad in [dict(num_f=0), dict(num_f=5), dict(num_f=-1), dict(num_p=0), dict(num_p=-2), dict(num_p=1.5),
                dict(vb_npts=0), dict(vb_npts=2.5), dict(vb_npts=-3), dict(vb_min=1, vb_max=.5), dict(num_f=2.5),
                dict(vb_min=2.0001)]:
        ctx.add({"op": "invalid", "case": str(bad), "made": call(lambda: str(EmbeddingCircuit(**bad)))})
    for rep in range(10):
        def fresh():
            c = build(rng)
            s = state(c)
            d = EmbeddingCircuit(c.num_f, c.num_p, vb_npts=c.vb_npts)
            fill(rng, d)
            d.vb += 1
            d.vt[...] = 7
            d.set_name("other", 1, 1)
            d.comment[0][0] = "x"
            ctx.add({"op": "fresh", "made": {"ok": True}, "start": s, "later": state(c)})
        ctx.guard("fresh", fresh)
    for rep in range(ctx.n(300, 2000)):
        ops = [str(x) for x in rng.choice(["set_freq"] * 6 + ["set_name"] * 3 + ["put_freq", "put_zt", "vph", "initialize_vj", "set_alpha", "label"], 8)]
        ctx.guard("set_freq history", history, ctx, rng, ops)


def c02(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(600, 4000)):
        ops = [str(x) for x in rng.choice(["set_available_power"] * 4 + ["available_power"] * 5 +
                                          ["set_alpha"] * 4 + ["put_zt", "put_vt", "set_freq", "put_freq", "print_info"], 10)]
        ctx.guard("power history", history, ctx, rng, ops, gap=int(rng.choice([0, 0, 0, 3, 4])))


def c03(ctx):
    from qmix.circuit import EmbeddingCircuit, read_circuit
    rng = ctx.rng()
    n = 0
    for rep in range(ctx.n(30, 200)):
        for nf in (1, 2, 3, 4):
            for np_ in (1, 2, 3, 11):
                def one():
                    c = EmbeddingCircuit(nf, np_, vb_npts=3, **({"vgap": 3e-3, "rn": 12.} if rng.random() < .3 else {}))
                    sh = (nf, np_)
                    c.freq[1:] = rng.uniform(0, 1, nf) * 10. ** rng.integers(-4, 2, nf)
                    sc = 10. ** rng.integers(-6, 4, sh)
                    c.vt[1:, 1:] = align(rng, sc * (rng.normal(size=sh) + 1j * rng.normal(size=sh)))
                    c.zt[1:, 1:] = align(rng, sc[::-1] * (rng.normal(size=sh) + 1j * rng.normal(size=sh)))
                    for a in (c.vt, c.zt):
                        a[1:, 1:][rng.random(sh) < .1] = 0
                        a[1:, 1:][rng.random(sh) < .1] = rng.normal()
                        a[1:, 1:][rng.random(sh) < .1] = 1j * rng.normal()
                        a[1:, 1:][rng.random(sh) < .05] = -1e-9 - 1e-9j
                    if rng.random() < .2:
                        c.freq[1] = -c.freq[1]
                    for f in range(nf):
                        if rng.random() < .3:
                            c.set_name("sig %d" % f, f + 1, 1)
                    if rng.random() < .2:
                        c.lock()
                    p1, p2 = os.path.join(ctx.scratch, "a.txt"), os.path.join(ctx.scratch, "b.txt")
                    before = state(c)
                    saved = call(c.save_info, p1)
                    d, ex = call_raw(read_circuit, p1)
                    after = state(c)
                    t1 = open(p1).read() if saved["ok"] else ""
                    if ex is not None:
                        ctx.add({"op": "file", "saved": saved, "read": failed(ex), "resaved": {"ok": False}})
                        return
                    re_ = call(d.save_info, p2)
                    t2 = open(p2).read() if re_["ok"] else ""
                    ctx.add({"op": "file", "before": before, "after": after, "loaded": state(d), "saved": saved,
                             "read": {"ok": True}, "resaved": re_, "text1": t1, "text2": t2})
                ctx.guard("file", one)


def c04(ctx):
    """Histories enumerated by TLC, replayed into the real object."""
    rng = ctx.rng()
    r = ctx.tlc("Circuit_MC", "Circuit_gen4.cfg" if ctx.thorough else "Circuit_gen.cfg", timeout=900)
    hists = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"HIST\|(.*?\])"', r.out)]
    if len(hists) < 1000:
        raise Machinery("TLC produced %d histories" % len(hists))
    hists.sort()
    keep = [h for h in hists if h[0] == "lock" and h[1] != "unlock"]
    rest = [h for h in hists if not (h[0] == "lock" and h[1] != "unlock")]
    n = ctx.n(2500, 30000)
    if len(keep) > n:
        keep = [keep[i] for i in rng.choice(len(keep), n, replace=False)]
    sample = keep + [rest[i] for i in rng.choice(len(rest), min(len(rest), n), replace=False)]
    for h in sample:
        ctx.guard("history", history, ctx, rng, h, nf=int(rng.integers(1, 3)), np_=int(rng.integers(1, 3)))
    for rep in range(ctx.n(150, 1500)):
        ops = [str(x) for x in rng.choice(ALL, 12)]
        ctx.guard("long history", history, ctx, rng, ops)


ALL = ["put_freq", "put_vt", "put_zt", "put_vb", "slice_freq", "slice_vt", "slice_zt", "slice_vb", "inplace_freq",
       "inplace_vt", "inplace_zt", "inplace_vb", "set_freq", "set_alpha", "set_available_power", "available_power",
       "current", "save", "print_info", "vph", "str", "initialize_vj", "lock", "lock", "unlock", "set_name", "label", "hb"]
