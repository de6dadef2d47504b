"""Impedance recovery: generator for E09."""
import numpy as np
from scipy import special
from common import F, FS, FN, C, project, call_raw
from c_exp import DEF, quick_dc, record_raw


def ac_current(resp, v, vph, a, nb=20):
    s = 0
    for n in range(-nb, nb + 1):
        j, m, p = (special.jv(k, a) for k in (n, n - 1, n + 1))
        s = s + j * ((m + p) * resp.idc(v + n * vph) + 1j * (m - p) * resp.ikk(v + n * vph))
    return s


def dc_current(resp, v, vph, a, nb=20):
    return sum(special.jv(n, a)**2 * resp.idc(v + n * vph) for n in range(-nb, nb + 1))


def drive(resp, v, vph, zt, vt):
    """the drive level |vt| = |vph a + zt I(a)| at every bias"""
    lo, hi = np.zeros_like(v), np.full_like(v, 2.5)
    for _ in range(50):
        a = (lo + hi) / 2
        less = np.abs(vph * a + zt * ac_current(resp, v, vph, a)) < vt
        lo, hi = np.where(less, a, lo), np.where(less, hi, a)
    return (lo + hi) / 2


class Pumped:
    """The pumped curve of a junction behind a known embedding circuit."""

    def __init__(self, rng, d, amax, fit, remb, xemb):
        self.resp = d.resp
        self.vph = rng.uniform(.22, .65)
        self.freq = self.vph * d.dc.fgap / 1e9
        self.vph = self.freq / d.dc.fgap * 1e9
        self.step = 1 - self.vph + self.vph * fit[0], 1 - self.vph * (1 - fit[1])
        for _ in range(40):
            self.zt = complex(rng.uniform(*remb), rng.uniform(*xemb))
            a = rng.uniform(.25, .95) * amax
            mid = np.array([1 - self.vph / 2])
            self.vt = float(np.abs(self.vph * a + self.zt * ac_current(self.resp, mid, self.vph, np.array([a])))[0])
            a = drive(self.resp, np.linspace(*self.step, 9), self.vph, self.zt, self.vt)
            if a.min() > .15 and a.max() < .97 * amax:
                break
        else:
            raise RuntimeError("no drive level found")

    def alpha(self, v):
        return drive(self.resp, v, self.vph, self.zt, self.vt)

    def curve(self, v):
        return dc_current(self.resp, v, self.vph, self.alpha(v))


def recover(ctx, rng, kind):
    from qmix.exp.exp_data import PumpedData
    j, o, _, d = quick_dc(rng)
    fit = [float(rng.uniform(.12, .4)), float(rng.uniform(.6, .87))]
    remb, xemb = [0., 1.], [-1., 1.]
    kw = dict(o, npts=int(rng.choice([401, 601, 801])), filter_data=False, fit_range=tuple(fit))
    if rng.random() < .3:
        del kw["fit_range"]
        fit = [.25, .8]
    if kind == "ranges" or rng.random() < .3:
        remb = [float(rng.uniform(0, .3)), float(rng.uniform(.7, 1.6))]
        xemb = [float(rng.uniform(-1.6, 0)), float(rng.uniform(.1, 1.6))]
        which = rng.integers(3)
        if which != 1:
            kw["remb_range"] = tuple(remb)
        else:
            remb = [0., 1.]
        if which != 0:
            kw["xemb_range"] = tuple(xemb)
        else:
            xemb = [-1., 1.]
    amax, nb = 1.5, 20
    if rng.random() < .4:
        amax = float(rng.uniform(.8, 1.6))
        kw["alpha_max"] = amax
    if rng.random() < .4:
        nb = int(rng.choice([10, 14, 25]))
        kw["num_b"] = nb
    inner = [remb[0] + .05 * (remb[1] - remb[0]), remb[1]], [xemb[0] + .03 * (xemb[1] - xemb[0]), xemb[1] - .03 * (xemb[1] - xemb[0])]
    g = Pumped(rng, d, amax, fit, *inner)
    if kind == "hard" or rng.random() < .15:      # driven harder than the starting value
        mid = 1 - g.vph / 2
        amax = float(g.alpha(np.array([mid]))[0] * rng.uniform(.76, .98))
        kw["alpha_max"] = amax
    zt = g.zt
    if kind == "outside":           # the circuit is not within the ranges searched
        a, b = sorted(rng.uniform(*remb, 2)), sorted(rng.uniform(*xemb, 2))
        if rng.random() < .5:
            kw["xemb_range"] = xemb = [x + (1.2 * (xemb[1] - xemb[0])) * rng.choice([-1, 1]) for x in xemb]
        else:
            kw["remb_range"] = remb = [float(zt.real + x) for x in sorted(rng.uniform(.2, 1., 2))]
    forced = None
    if kind == "forced":
        forced = complex(rng.uniform(0, 1.2), rng.uniform(-1.2, 1.2))
        if rng.random() < .3:
            forced = zt
        elif rng.random() < .3:
            forced = forced * 10 ** rng.uniform(0, .6)
        elif rng.random() < .3:
            forced = float(forced.real)
        elif rng.random() < .3:
            forced = [complex(0., forced.imag), 0., 0j, 0][rng.integers(4)]
        kw["zemb"] = forced

    # the measured curve: the circuit's on the selected part of the step, something else elsewhere
    va = np.linspace(g.step[0] - .05 * g.vph, g.step[1] + .05 * g.vph, 160)
    ia = g.curve(va)
    if kind == "noisy":
        ia = ia + rng.normal(size=len(ia)) * 10 ** rng.uniform(-5, -2.5)
    lo, hi = rng.uniform(-1.8, -.2), rng.uniform(1.05, 2.1)
    vb, vc = np.linspace(lo, va[0], 60, endpoint=False), np.linspace(hi, va[-1], 60, endpoint=False)[::-1]
    ib, ic = ((d.resp.idc(x) * rng.uniform(.5, 2) + rng.uniform(-.1, .3) for x in (vb, vc)) if rng.random() < .5
              else (dc_current(d.resp, x, g.vph, np.full_like(x, g.alpha(va[k:][:1])[0])) for x, k in ((vb, 0), (vc, -1))))
    v, i = np.r_[vb, va, vc], np.r_[ib, ia, ic]
    raw = record_raw(rng, v * d.vgap + kw["voffset"], i * d.dc.igap + kw["ioffset"], dict(DEF))
    p, exc = call_raw(PumpedData, raw, d, freq=g.freq, verbose=bool(rng.random() < .3), **kw)
    rec = {"op": "recover", "case": kind, "made": exc is None}
    if exc is None:
        near = (p.voltage > g.step[0] - .03 * g.vph) & (p.voltage < g.step[1] + .03 * g.vph)
        pv, pi = p.voltage[near], p.current[near]
        at = pv[:, None] + np.arange(-nb, nb + 1) * g.vph
        inside = pv[(pv >= g.step[0]) & (pv <= g.step[1])]
        mid = inside[np.abs(inside - (1 - g.vph / 2)).argmin()] if len(inside) else 1 - g.vph / 2
        dr, dx = (remb[1] - remb[0]) / 100, (xemb[1] - xemb[0]) / 200
        coarse = [[int(a), int(b)] for a in range(1, 102, 20) for b in range(1, 202, 25)]
        probe = coarse + [[int(rng.integers(1, 102)), int(rng.integers(1, 202))] for _ in range(ctx.n(40, 400))]
        exact = kind not in ("noisy", "outside") and nb >= 14 and (forced is None or forced == zt)
        rec.update({
            "m": {"v": FS(pv), "i": FS(pi), "idc": FN(d.resp.idc(at)), "kk": FN(d.resp.ikk(at)), "vph": F(g.vph), "amax": F(amax),
                  "nb": nb, "fit": [F(fit[0]), F(fit[1])], "remb": [F(x) for x in remb], "xemb": [F(x) for x in xemb]},
            "probe": probe, "zemb": {"is": forced is not None, "re": F(complex(forced or 0).real), "im": F(complex(forced or 0).imag)},
            "planted": {"is": bool(exact), "re": F(zt.real), "im": F(zt.imag), "vt": F(g.vt),
                        "alpha": F(g.alpha(np.array([mid]))[0]), "tol": F(.03 + 3 * max(dr, dx))},
            "zt": project(p.zt), "vt": project(p.vt), "zw": project(p.zw), "alpha": project(p.alpha), "good": project(p.fit_good),
            "err_surf": project(p.err_surf)})
    ctx.add(rec)


def e09(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(5, 30)):
        for kind in ("exact", "exact", "ranges", "forced", "outside", "noisy", "hard"):
            ctx.guard(kind, recover, ctx, rng, kind)
