"""Printed reports: generator for V02."""
import io
import contextlib
import re
import numpy as np
from common import C, CN, CS, F, FS, call_raw, quiet
from c_exp import DEF, Junction, if_options, if_raw, IFPower, jitter, quick_dc, record_raw
from c_fig import dc_object, numbers, pumped_object, words

ANSI = re.compile(r"\x1b\[(\d+)m")


def printed(fn, *a, **k):
    """(result, exception name, what it printed)"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            r = fn(*a, **k)
        return r, "", out.getvalue()
    except Exception as e:
        return None, type(e).__name__, out.getvalue()


def lines_of(text):
    return [{"nums": numbers(s), "words": words(s)} for s in re.split(r"[\n\r]", text) if s.strip()]


def with_numbers(text):
    return [x for x in lines_of(text) if x["nums"]]


def signed(text):
    """A complex number written with its imaginary unit in front: a + j b means a + (b) j."""
    m = re.match(r"^\s*([-+]?[\d.]+)\s*([-+])\s*j\s*([-+]?)\s*([\d.]+)\s*$", text)
    return numbers(m.group(1)) + numbers(("-" if (m.group(2) == "-") != (m.group(3) == "-") else "") + m.group(4)) if m else []


# --- DC data -------------------------------------------------------------------------

def dc_values(d):
    return {"vgap": F(d.vgap), "fgap": F(d.fgap), "rn": F(d.rn), "rsg": F(d.rsg), "q": F(d.q), "jc": F(d.jc), "ileak": F(d.ileak), "voff": F(d.offset[0]),
            "ioff": F(d.offset[1]), "vint": F(d.vint), "hasif": d.if_noise is not None, "noise": F(d.if_noise if d.if_noise is not None else 0.)}


def dc_report(ctx, rng):
    from qmix.exp.exp_data import DCData
    with_if = bool(rng.integers(2))
    j, o, raw, _ = quick_dc(rng)
    o = dict(o, npts=401, area=float(rng.uniform(.3, 4)), vleak=float(rng.uniform(1e-3, 2.2e-3)), filter_nwind=7, comment="junction of the test")
    a = [raw]
    if with_if:
        o.update(ifdata_npts=261, ifdata_sigma=4e-5, vshot=(float(j.vgap + .6e-3), 5.2e-3))
        a.append(if_raw(rng, IFPower(rng, j), dict(DEF), o["voffset"]))
    how = ["verbose", "str", "print_info", "print"][rng.integers(4)]
    d, exc, text = printed(DCData, *a, verbose=how == "verbose", **o)
    quietly = how == "verbose" or text.strip() == ""
    if exc:
        ctx.add({"op": "dcreport", "case": how, "raised": exc})
        return
    if how == "str":
        text = str(d)
    elif how == "print_info":
        text = printed(d.print_info)[2]
    elif how == "print":
        text = printed(print, d)[2]
    ctx.add({"op": "dcreport", "case": how, "raised": "", "d": dc_values(d), "lines": with_numbers(text), "said": words(text), "short": numbers(repr(d)), "quiet": quietly})


# --- pumped data ---------------------------------------------------------------------

def pumped_report(ctx, rng):
    import qmix.exp.exp_data as ed
    with_if, rec = bool(rng.integers(2)), bool(rng.random() < .7)
    j, o, d = dc_object(rng, bool(rng.integers(2)))
    seen = {}
    old = ed.PumpedData

    def wrapped(*a, **k):           # the object built by the helper, with its report
        k["verbose"] = True
        r, exc, text = printed(old, *a, **k)
        seen["text"], seen["exc"] = text, exc
        if exc:
            raise RuntimeError(exc)
        return r
    more = {}
    if rec and rng.random() < .3:
        more["zemb"] = complex(rng.uniform(.2, .9), rng.uniform(-.9, .9))
    ed.PumpedData = wrapped
    try:
        p = pumped_object(rng, j, o, d, with_if, rec, comment="pumped junction", **more)
    finally:
        ed.PumpedData = old
    ctx.add({"op": "pumpedreport", "case": "if" * with_if + " recovered" * rec, "lines": lines_of(seen["text"]), "freq": F(p.freq), "vph": F(p.vph), "vgap": F(p.vgap), "rn": F(p.rn),
             "hasif": with_if, "haszt": rec, "said": words(seen["text"]),
             "if": {"noise": F(p.if_noise), "tn": F(p.tn_best), "gain": F(p.gain_best), "fitted": d.dcif is None} if with_if else {},
             "z": {"zt": C(p.zt), "vt": F(p.vt), "alpha": F(p.alpha), "zw": C(p.zw), "good": bool(p.fit_good)} if rec else {}})


# --- circuits ------------------------------------------------------------------------

def circuit_report(ctx, rng):
    from qmix.circuit import EmbeddingCircuit
    nf, np_ = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    known = bool(rng.integers(2))
    kw = dict(fgap=float(rng.uniform(500e9, 900e9)), vgap=float(rng.uniform(2e-3, 4e-3)), rn=float(rng.uniform(5, 40))) if known else {}
    if not known and rng.random() < .4:     # some of the three only: nothing to convert with
        kw = {k: v for k, v in zip(("fgap", "vgap", "rn"), (7e11, 3e-3, 14.)) if rng.random() < .6}
        if len(kw) == 3:
            del kw["rn"]
    name = ["", "mixer at work"][rng.integers(2)]
    c = EmbeddingCircuit(nf, np_, name=name, **kw)
    for f in range(1, nf + 1):
        c.freq[f] = rng.uniform(.05, .9)
        for p in range(1, np_ + 1):
            c.vt[f, p] = float(rng.uniform(1e-3, 1.2)) * (1 if rng.random() < .8 else -1)
            c.zt[f, p] = complex(rng.uniform(.05, 2), rng.uniform(-2, 2))
    r, exc, text = printed(c.print_info)
    ctx.add({"op": "circuitreport", "case": "%d %d" % (nf, np_), "raised": exc, "nf": nf, "np": np_, "known": "rn" in kw and ("fgap" in kw or "vgap" in kw), "name": words(name),
             "hasf": "fgap" in kw, "hasv": "vgap" in kw, "fgap": F(kw.get("fgap", 0)), "vgap": F(kw.get("vgap", 0)), "rn": F(kw.get("rn", 0)), "freq": FS(c.freq[1:]), "vt": CN(c.vt[1:, 1:]), "zt": CN(c.zt[1:, 1:]),
             "lines": with_numbers(text), "str": {"nums": numbers(str(c)), "words": words(str(c))}})


# --- harmonic balance ----------------------------------------------------------------

def balance_report(ctx, rng):
    from qmix.circuit import EmbeddingCircuit
    from qmix.harmonic_balance import harmonic_balance, check_hb_error
    from qmix.qtcurrent import qtcurrent
    from qmix.respfn import RespFnPolynomial
    nf, np_ = [(1, 1), (1, 2), (2, 1)][rng.integers(3)]
    c = EmbeddingCircuit(nf, np_, vb_min=0, vb_max=2, vb_npts=int(rng.integers(5, 12)))
    c.freq[1:] = [.3, .33][:nf]
    for f in range(1, nf + 1):
        for p in range(1, np_ + 1):
            c.vt[f, p], c.zt[f, p] = float(rng.uniform(.1, .5)) / p, complex(rng.uniform(.1, .8), rng.uniform(-.5, .5))
            if rng.random() < .4:      # nearly ideal sources converge sooner
                c.zt[f, p] *= 10 ** rng.uniform(-4, -1)
    with quiet():
        resp = RespFnPolynomial(50, verbose=False)
    nb = int(rng.choice([6, 8]))
    max_it, stop = int(rng.choice([0, 1, 2, 3, 7])), float(rng.choice([.1, .001, 1e-5]))
    verbose = bool(rng.random() < .75)
    out, exc, text = printed(harmonic_balance, c, resp, num_b=nb, max_it=max_it, stop_rerror=stop, mode="x", verbose=verbose)
    rec = {"op": "balancereport", "case": "hb", "raised": exc, "verbose": verbose, "nf": nf, "np": np_, "stop": F(stop), "maxit": max_it, "lines": lines_of(text)}
    if not exc:
        vj, it, ok = out
        sig = [(f, p) for f in range(1, nf + 1) for p in range(1, np_ + 1)]
        rounds = []
        with quiet():
            # the voltages after each iteration: the same calculation, stopped there
            for k in range(int(it)):
                rounds.append(harmonic_balance(c, resp, num_b=nb, max_it=k, stop_rerror=stop, verbose=False))
            rounds.append(vj)
            ijs = [qtcurrent(x, c, resp, [p * c.freq[f] for f, p in sig], num_b=nb, verbose=False) for x in rounds]
        rec.update({"it": int(it), "ok": bool(ok), "rounds": [{"vj": [CS(x[f, p]) for f, p in sig], "ij": [CS(y) for y in ij]} for x, ij in zip(rounds, ijs)],
                    "vt": [C(c.vt[f, p]) for f, p in sig], "zt": [C(c.zt[f, p]) for f, p in sig]})
        _, exc2, text2 = printed(check_hb_error, vj, c, resp, num_b=nb, stop_rerror=stop)
        rec["check"] = {"raised": exc2, "lines": with_numbers(text2)}
    ctx.add(rec)


# --- import warnings, response functions, tunnelling currents ------------------------------

def warning_report(ctx, rng):
    """A junction of any resistance: the import warns of the improbable ones."""
    from qmix.exp.iv_data import dciv_curve
    j = Junction(rng)
    j.rn = float(rng.choice([rng.uniform(.05, .97), rng.uniform(1.05, 48), rng.uniform(52, 900)]))
    j.rsg, j.igap = 20 * j.rn, j.vgap / j.rn
    v = jitter(rng, np.linspace(-6e-3, 6e-3, 1501))
    o = dict(voffset=0., ioffset=0., npts=801, vrn=(float(j.vgap + .9e-3), 5e3))
    r, exc, text = printed(dciv_curve, record_raw(rng, v, j.i(v), dict(DEF)), **o)
    ctx.add({"op": "warningreport", "case": "%.3g ohms" % j.rn, "raised": exc, "rn": F(r[2].rn) if r else F(0.), "lines": lines_of(text)})


def shot_report(ctx, rng):
    """The shot-noise fit says when the range asked for holds too few points."""
    from qmix.exp.if_data import dcif_data
    j, o, raw, d = quick_dc(rng)
    n, vmax = int(rng.choice([201, 401, 601])), 6e-3
    step = vmax / (n - 1)
    lo = int(rng.integers((n * 3) // 5, (n * 4) // 5))
    k = int(rng.integers(0, 12))
    win = ((lo + .5) * step, (lo + k + .5) * step)        # holds k points
    o = dict(o, ifdata_npts=n, ifdata_sigma=None, vmax=vmax, vshot=win)
    r, exc, text = printed(dcif_data, if_raw(rng, IFPower(rng, j), dict(DEF), o["voffset"]), d.dc, **o)
    ctx.add({"op": "shotreport", "case": "%d points" % k, "raised": exc, "k": k, "lines": lines_of(text)})


def resp_report(ctx, rng):
    import qmix.respfn as rf
    from qmix.mathfn import ivcurve_models as M
    top = float(rng.choice([6., 12., 20., 36., 40.]))
    v = np.linspace(0, top, int(top / rng.uniform(.03, .06)) + 1)
    n = len(v)
    i = M.polynomial(v, int(rng.choice([6, 20, 50]))) if rng.integers(2) else M.expanded(v, agap=float(rng.uniform(1e4, 4e4)))
    kw = {}
    if rng.random() < .5:
        kw["v_smear"] = float(rng.uniform(.02, .3))
    if rng.random() < .6:
        kw.update(max_npts_dc=int(rng.integers(5, 200)), max_npts_kk=int(rng.integers(5, 200)), spline_order=int(rng.choice([1, 2, 3])))
    verbose = bool(rng.random() < .85)
    r, exc, text = printed(rf.RespFn, v, i, **(kw if verbose and rng.random() < .3 else dict(kw, verbose=verbose)))
    rec = {"op": "respreport", "case": "n=%d v=%g %s" % (n, v[-1], sorted(kw.items())), "raised": exc, "verbose": verbose, "lines": lines_of(text),
           "smear": "v_smear" in kw, "sigma": F(kw.get("v_smear", 0.))}
    if r is not None:
        rec.update(v=FS(r.voltage), i=FS(r.current), k=FS(r.current_kk), fi=FS(r.idc(r.voltage)), fk=FS(r.ikk(r.voltage_kk)))
    ctx.add(rec)


def current_report(ctx, rng):
    from qmix.circuit import EmbeddingCircuit
    from qmix.qtcurrent import qtcurrent
    from qmix.respfn import RespFnPolynomial
    nf, np_ = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    c = EmbeddingCircuit(nf, np_, vb_npts=3)
    c.freq[1:] = [.3, .33, .4][:nf]
    vj = c.initialize_vj()
    vj[1:, 1:] = .1
    with quiet():
        resp = RespFnPolynomial(50, verbose=False)
    verbose = bool(rng.random() < .7)
    _, exc, text = printed(qtcurrent, vj, c, resp, [.3, 0.], num_b=2, **({} if verbose and rng.integers(2) else {"verbose": verbose}))
    ctx.add({"op": "currentreport", "case": "%d %d" % (nf, np_), "raised": exc, "verbose": verbose, "nf": nf, "np": np_, "lines": lines_of(text)})


# --- the terminal helpers --------------------------------------------------------------

COLORS = ["CYAN", "MAGENTA", "PINK", "BLUE", "GREEN", "YELLOW", "RED", "HEADER", "HEADER1", "HEADER2", "HEADER3", "OKBLUE", "OKGREEN", "WARNING", "FAIL",
          "BOLD", "UNDERLINE", "INVERSE", "BLINK"]


def painted(text):
    """codes at both ends, and the text between"""
    m = re.match(r"^\x1b\[(\d+)m(.*)\x1b\[(\d+)m\n?$", text, re.S)
    if m:
        return {"code": int(m.group(1)), "end": int(m.group(3)), "text": m.group(2)}
    return {"code": -1, "end": -1, "text": text[:-1] if text.endswith("\n") else text}


def some_color(rng):
    c = [None, str(rng.choice(COLORS))][int(rng.random() < .7)]
    return c.lower() if c and rng.random() < .3 else c


def terminal(ctx, rng):
    from qmix.misc import terminal as T
    from qmix.misc.progbar import progress_bar
    kind = ["cprint", "pvalf", "pvale", "title", "header", "printc", "bar"][rng.integers(7)]
    color = some_color(rng)
    rec = {"op": "terminal", "case": kind, "kind": kind, "color": (color or "").upper()}
    if kind == "cprint":
        s = str(rng.choice(["hello", "two words", "tab\there", "x = 1.5"]))
        if rng.random() < .2:
            rec["color"] = bad = "no such color"
            _, exc, text = printed(T.cprint, s, bad)
            rec.update(raised=exc, bad=True, text=s, got=s if s in text else "", listed=[c for c in COLORS if c in text], known=COLORS)
        else:
            _, exc, text = printed(T.cprint, s, color) if rng.random() < .8 else (rec.update(color="HEADER"), *printed(T.cprint, s)[1:])
            g = painted(text)
            rec.update(raised=exc, bad=False, text=s, code=g["code"], end=g["end"], got=g["text"])
    elif kind in ("pvalf", "pvale"):
        val = [float(rng.normal() * 10 ** rng.uniform(-2, 3)), complex(*(rng.normal(size=2) * 10 ** rng.uniform(-2, 2))), int(rng.integers(-99, 999)),
               np.float64(rng.normal()), np.complex128(complex(*rng.normal(size=2)))][rng.integers(5)]
        units, comment = str(rng.choice(["", "mV", "ohms", "kA/cm^2"])), str(rng.choice(["", "a comment"]))
        _, exc, text = printed(getattr(T, kind), "quantity", val, units, comment, color)
        g = painted(text)
        body = g["text"]
        head, _, tail = body.partition("=")
        value = re.split(r"\[|#", tail)[0]
        m, k = re.search(r"\[([^\]]*)\]", tail), re.search(r"#\s*(.*)", tail)
        rec.update(raised=exc, code=g["code"], end=g["end"], name=head.strip(), nums=numbers(value), val=C(val), complex=isinstance(val, complex),
                   units=units, gotunits=m.group(1) if m else "", comment=comment, gotcomment=k.group(1).strip() if k else "")
    elif kind == "title":
        s, n = str(rng.choice(["Results", "A title", "odd", "even"])), int(rng.integers(20, 80))
        _, exc, text = printed(T.title, s, color, n) if rng.random() < .7 else (None, *printed(T.title, s, color)[1:]) if not rec.update(default=1) else 0
        if "default" in rec:
            n = 60
        g = painted(text)
        body = g["text"].rstrip("\n")
        m = re.match(r"^(\**) (.*?) (\**)$", body)
        rec.update(raised=exc, code=g["code"], end=g["end"], len=len(body), want=n, title=s, got=m.group(2) if m else "", left=len(m.group(1)) if m else -9, right=len(m.group(3)) if m else -99)
    elif kind == "header":
        s = str(rng.choice(["Junction", "Circuit"]))
        _, exc, text = printed(T.header, s, color)
        rec.update(raised=exc, title=s, has=s + ":" in text)
    elif kind == "printc":
        z = complex(*(rng.normal(size=2) * 10 ** rng.uniform(-1, 2)))
        if rng.random() < .3:
            z = complex(z.real, 0.)
        got, exc = call_raw(T.printc, z)
        rec.update(raised=type(exc).__name__ if exc else "", val=C(z), nums=signed(got) if isinstance(got, str) else [])
    else:
        n = int(rng.integers(1, 60))
        it = [int(rng.integers(0, n + 1)), n, 0][rng.integers(3)]
        kw = {}
        if rng.random() < .6:
            kw = dict(prefix="Working", suffix="so far", decimals=int(rng.integers(1, 4)), bar_length=int(rng.integers(5, 60)))
        _, exc, text = printed(progress_bar, it, n, **kw)
        m = re.match(r"^\r(.*?) \|([- ]*)\| ([-\d.e]+) ?% (.*?)(\n?)$", text, re.S)
        rec.update(raised=exc, it=it, n=n, prefix=kw.get("prefix", "Progress:"), suffix=kw.get("suffix", "Complete"), decimals=kw.get("decimals", 2), length=kw.get("bar_length", 20),
                   got=dict(prefix=m.group(1), filled=m.group(2).count("-"), solid=m.group(2) == "-" * m.group(2).count("-") + " " * m.group(2).count(" "), length=len(m.group(2)),
                            pct=F(float(m.group(3))), suffix=m.group(4), newline=bool(m.group(5))) if m else {}, parsed=m is not None)
    ctx.add(rec)


def v02(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(24, 120)):
        ctx.guard("dc report", dc_report, ctx, rng)
    for rep in range(ctx.n(8, 40)):
        ctx.guard("pumped report", pumped_report, ctx, rng)
    for rep in range(ctx.n(60, 240)):
        ctx.guard("circuit report", circuit_report, ctx, rng)
    for rep in range(ctx.n(12, 50)):
        ctx.guard("balance report", balance_report, ctx, rng)
    for rep in range(ctx.n(10, 60)):
        ctx.guard("warning report", warning_report, ctx, rng)
        ctx.guard("shot noise report", shot_report, ctx, rng)
        ctx.guard("current report", current_report, ctx, rng)
    for rep in range(ctx.n(12, 60)):
        ctx.guard("response report", resp_report, ctx, rng)
    for rep in range(ctx.n(300, 900)):
        ctx.guard("terminal", terminal, ctx, rng)
