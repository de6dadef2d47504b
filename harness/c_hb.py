"""Harmonic balance: generators for H01-H05."""
import contextlib
import io
import numpy as np
from common import F, C, FS, CS, CN, project, call, call_raw, failed, quiet, align, holes
from qtlib import Trig, Ohm, Table, pick_freqs, safe_freqs, UNIT
from c_qt import real_resp


class SoftTrig(Trig):
    """A smooth, junction-like response: small curvature, ohmic on average."""

    def __init__(self, rng):
        super().__init__(rng, rough=False)
        self.c = np.array([rng.normal() * .3, rng.normal() * .3, rng.uniform(.5, 2), rng.normal() * .1,
                           rng.uniform(.6, 1.3), rng.normal() * .3, rng.uniform(.5, 2)])


class Circuit:
    """A circuit, its response function and limits, rebuildable at will."""

    def __init__(self, rng, nf, np_, npts, nb, resp, zscale=1., idle=0.2, short=0.0, vamp=0.5, fine=False, flow=1500):
        while True:
            self.f = pick_freqs(rng, nf, np_, fine=fine)
            if min(self.f) >= flow * 1000:
                break
        self.nf, self.np, self.npts, self.resp = nf, np_, npts, resp
        self.num_b = nb
        self.nb = [nb] * nf if isinstance(nb, int) else list(nb)[:nf]
        self.nmax = nb if isinstance(nb, int) else max(nb)
        self.vb = np.linspace(rng.uniform(-.5, .5), rng.uniform(.6, 2.), npts)
        if rng.random() < .4:       # any sweep the user puts into the circuit
            self.vb = rng.permutation(rng.uniform(-1., 2., npts))
        self.vt = np.zeros((nf + 1, np_ + 1), dtype=complex)
        self.zt = np.zeros((nf + 1, np_ + 1), dtype=complex)
        ph = np.exp(1j * rng.uniform(-np.pi, np.pi, (nf, np_)))
        self.vt[1:, 1:] = vamp * rng.uniform(.2, 1, (nf, np_)) * ph * np.array(self.f)[:, None] / UNIT
        self.vt[1:, 1:] = align(rng, self.vt[1:, 1:])
        if idle:
            holes(rng, self.vt[1:, 1:], idle)
        self.zt[1:, 1:] = zscale * (rng.uniform(.05, 1, (nf, np_)) + 1j * rng.uniform(-.7, .7, (nf, np_)))
        on = rng.random((nf, np_)) < .15
        self.zt[1:, 1:].real[on & (rng.random((nf, np_)) < .5)] = 0     # purely reactive
        self.zt[1:, 1:].imag[on] *= self.zt[1:, 1:].real[on] == 0      # or purely resistive
        if short:
            holes(rng, self.zt[1:, 1:], short)
        if not self.zt.any():
            self.zt[1, 1] = .3

    def make(self, idx=None):
        from qmix.circuit import EmbeddingCircuit
        vb = self.vb if idx is None else self.vb[idx]
        c = EmbeddingCircuit(self.nf, self.np, vb_npts=len(vb))
        c.freq[1:] = np.array(self.f) / UNIT
        c.vb = vb.copy()
        c.vt[:] = self.vt
        c.zt[:] = self.zt
        return c

    def run(self, mode, guess=None, idx=None, cct=None, verbose=False, **kw):
        """(raw result or None, exception or None, text printed)"""
        from qmix.harmonic_balance import harmonic_balance
        cct = cct or self.make(idx)
        out, err = io.StringIO(), io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                r = harmonic_balance(cct, self.resp, self.num_b, vj_initial=guess, mode=mode, verbose=verbose, **kw)
            return r, None, out.getvalue() + err.getvalue()
        except Exception as e:
            return None, e, out.getvalue()

    def run_x(self, **kw):
        """a run record {max, v, it, flag, spoke} and the raw voltage"""
        r, e, text = self.run("x", **kw)
        m = kw.get("max_it", 10)
        if e is not None:
            return {"max": m, "v": failed(e), "it": -1, "flag": False, "spoke": False}, None
        v, it, flag = r
        return {"max": m, "v": project(v), "it": int(it), "flag": bool(flag), "spoke": bool(text.strip())}, v

    def rec(self):
        return {"nf": self.nf, "np": self.np, "npts": self.npts, "nb": self.nb, "nmax": self.nmax,
                "f": self.f, "vj": [], "vb": FS(self.vb), "resp": self.resp.rec(self.f, self.nb, self.vb)}

    def base(self, **kw):
        return dict({"u": self.rec(), "vt": CN(self.vt[1:, 1:]), "zt": CN(self.zt[1:, 1:])}, **kw)

    def guess(self, rng, amp=.3):
        g = amp * (rng.normal(size=(self.nf + 1, self.np + 1, self.npts)) + 1j * rng.normal(size=(self.nf + 1, self.np + 1, self.npts)))
        g[1:] *= np.array(self.f)[:, None, None] / UNIT
        return g


NONE = {"ok": False, "exc": "", "kind": "none", "shape": [], "v": []}
SHAPES = [(1, 1, 9), (1, 2, 8), (1, 3, 7), (2, 1, 5), (2, 2, 4), (3, 1, 2), (4, 1, 1)]


def pick_limits(rng, nf, top):
    if rng.random() < .4:
        return int(rng.integers(max(1, top - 3), top + 1))
    return tuple(int(x) for x in rng.integers(max(1, top - 3), top + 1, nf))


def pick_resp(rng, soft=False):
    x = rng.random()
    if soft or x < .6:
        return SoftTrig(rng)
    if x < .7:
        return Ohm()
    return real_resp(["poly", "exp", "exp"][rng.integers(3)])


def h01(ctx):
    from qmix.harmonic_balance import check_hb_error
    rng = ctx.rng()
    for rep in range(ctx.n(20, 120)):
        for nf, np_, top in SHAPES:
            def one():
                npts = int(rng.integers(1, 5)) if nf * np_ < 4 else int(rng.integers(1, 3))
                c = Circuit(rng, nf, np_, npts, pick_limits(rng, nf, top), pick_resp(rng), short=.1,
                            zscale=rng.choice([.3, 1., .3, 1., 1e-3]), fine=rng.random() < .3)
                tol = float(10. ** rng.uniform(-6, -2))
                g = c.guess(rng) if rng.random() < .4 else None
                r, v = c.run_x(guess=g, max_it=int(rng.integers(4, 14)), stop_rerror=tol,
                               damp_coeff=float(rng.choice([1., 1., .8])))
                ctx.add(c.base(op="solve", tol=F(tol), out=r["v"], flag=r["flag"] or not r["spoke"]))
                if v is None:
                    return
                # the error check: find its threshold on a perturbed solution
                w = v * (1 + 10. ** rng.uniform(-5, -1) * rng.normal(size=v.shape))
                k = (int(rng.integers(1, nf + 1)), int(rng.integers(1, np_ + 1)), int(rng.integers(npts)))
                w[k] *= 1 + .2j
                cct = c.make()
                cct.vt[np.abs(cct.vt) < 1e-10] = 1e-10
                cct.vt[0], cct.vt[:, 0] = 0, 0

                def accepts(t):
                    _, e = call_raw(check_hb_error, w, cct, c.resp, num_b=c.num_b, stop_rerror=t)
                    if e is not None and not isinstance(e, AssertionError):
                        raise e
                    return e is None
                lo, hi = 1e-9, 1e9
                la, ha = accepts(lo), accepts(hi)
                if not la and ha:
                    while hi / lo > 1.001:
                        mid = (lo * hi) ** .5
                        if accepts(mid):
                            hi = mid
                        else:
                            lo = mid
                ctx.add(c.base(op="check", out=project(w), lo=F(lo), hi=F(hi), lorej=not la, hiacc=ha))
            ctx.guard("h01 %d tones %d harmonics" % (nf, np_), one)
    # sweeps of an ordinary length, where points converge at very different speeds; of the targets that
    # stop at the same correction, the tightest one declared met says the most
    for rep in range(ctx.n(3, 15)):
        for nf, np_, nb in [(1, 1, 6), (1, 2, 5), (2, 1, 3)]:
            def long():
                resp = real_resp("poly") if rng.random() < .7 else pick_resp(rng)
                c = Circuit(rng, nf, np_, int(rng.integers(34, 60)), nb, resp, zscale=rng.choice([1., .3]),
                            vamp=rng.choice([1.2, .6]), idle=0)
                c.vb = np.sort(c.vb)
                if nf * np_ > 1 and rng.random() < .7:       # one signal settles long before the other
                    c.zt[1:, 1:].flat[rng.integers(nf * np_)] *= 1e-3
                best = {}
                for tol in 10. ** -np.linspace(1., 6., 31):
                    r, v = c.run_x(max_it=12, stop_rerror=float(tol))
                    best[(r["it"], r["flag"], r["v"]["ok"])] = float(tol), r
                for tol, r in best.values():
                    ctx.add(c.base(op="solve", tol=F(tol), out=r["v"], flag=r["flag"] or not r["spoke"]))
            ctx.guard("h01 long sweep", long)


def h02(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(10, 60)):
        for nf, np_, tops in SHAPES:
            def one():
                npts = int(rng.integers(2, 5)) if nf * np_ < 4 else 2
                if rep % 5 == 4 and nf * np_ < 3:
                    npts, top = int(rng.integers(31, 50)), min(tops, 5)
                else:
                    top = tops
                c = Circuit(rng, nf, np_, npts, pick_limits(rng, nf, top), pick_resp(rng),
                            zscale=rng.choice([.3, 1.]))
                tol = float(10. ** rng.uniform(-5, -1))
                damp = float(rng.choice([1., .7]))
                g = c.guess(rng) if rng.random() < .4 else None
                N = 5
                kw = dict(guess=g, stop_rerror=tol, damp_coeff=damp)
                runs = [c.run_x(max_it=n, **kw)[0] for n in range(N + 1)]
                modes, masks = [], []
                for m in {0, 1, int(rng.integers(N + 1)), N}:
                    r, e, _ = c.run("o", max_it=m, **kw)
                    modes.append({"max": m, "v": project(r) if e is None else failed(e)})
                    r, e, _ = c.run("o", max_it=m, verbose=True, **kw)
                    modes.append({"max": m, "v": project(r) if e is None else failed(e)})
                    r, e, _ = c.run("m", max_it=m, **kw)
                    if e is not None:
                        modes.append({"max": m, "v": failed(e)})
                    else:
                        modes.append({"max": m, "v": project(r[0])})
                        masks.append({"max": m, "mask": project(r[1])})
                ctx.add(c.base(op="outcome", tol=F(tol), runs=runs, modes=modes, masks=masks))
            ctx.guard("h02 %d tones %d harmonics" % (nf, np_), one)
    _shorted(ctx, rng)


def _shorted(ctx, rng):
    for nf, np_, top in SHAPES:
        def short():
            c = Circuit(rng, nf, np_, int(rng.integers(1, 4)), top, SoftTrig(rng))
            c.zt[:] = 0
            r, v = c.run_x(max_it=int(rng.integers(0, 4)))
            m, e, _ = c.run("m")
            o, e2, _ = c.run("o")
            ctx.add(c.base(op="shorted", exact=True, tol=F(1e-3), out=project(o) if e2 is None else failed(e2),
                           flag=r["flag"], it=r["it"], mask=project(m[1]) if e is None else failed(e)))
            ctx.add(c.base(op="shorted", exact=True, tol=F(1e-3), out=r["v"],
                           flag=r["flag"], it=r["it"], mask=project(m[1]) if e is None else failed(e)))
        ctx.guard("shorted", short)


def h03(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(8, 60)):
        for nf, np_, top in SHAPES:
            def one():
                npts = int(rng.integers(2, 4)) if nf * np_ < 4 else 2
                c = Circuit(rng, nf, np_, npts, {1: 9, 2: 5, 3: 3, 4: 2}[nf] if rng.random() < .5 else tuple({1: [8], 2: [6, 4], 3: [2, 4, 3], 4: [3, 2, 2, 2]}[nf]), pick_resp(rng, soft=True),
                            zscale=1., vamp=1. if nf < 3 else .7, idle=.1, flow=3000 if nf * np_ < 4 else 1500)
                tol = float(10. ** rng.uniform(-8, -3))
                damp = float(rng.choice([1., .9, .5, .25]))
                zg = float(rng.choice([.67, .3, 1.5]))
                g = c.guess(rng) if rng.random() < .5 else None
                N = 4
                kw = dict(stop_rerror=tol, damp_coeff=damp, zj_guess=zg)
                both = [c.run_x(max_it=n, guess=g, **kw) for n in range(N + 1)]
                runs = [r for r, _ in both]
                splits, singles = [], []
                for first, more in ((0, N), (1, N - 1), (2, 1), (N - 1, 1)):
                    if both[first][1] is not None:
                        r, _ = c.run_x(max_it=more, guess=both[first][1].copy(), **kw)
                        splits.append({"first": first, "more": more, "v": r["v"]})
                # one bias point on its own, without the shared stopping rule
                tiny = dict(kw, stop_rerror=1e-300)
                free = c.run_x(max_it=2, guess=g, **tiny)[0]
                kept = [r for r in runs]
                for i in range(npts):
                    s, _ = c.run_x(max_it=2, guess=None if g is None else g[:, :, i:i + 1], idx=slice(i, i + 1), **tiny)
                    singles.append({"max": len(kept), "i": i + 1, "v": s["v"]})
                ctx.add(c.base(op="iterate", tol=F(tol), damp=F(damp), zjg=F(zg), slack=F(.007),
                               given=project(_padded(g)) if g is not None else NONE,
                               runs=runs, splits=splits, singles=[]))
                ctx.add(c.base(op="iterate", tol=F(1e-300), damp=F(damp), zjg=F(zg), slack=F(.007),
                               given=project(_padded(g)) if g is not None else NONE,
                               runs=[runs[0], c.run_x(max_it=1, guess=g, **tiny)[0], free], splits=[],
                               singles=[dict(s, max=2) for s in singles]))
            ctx.guard("h03 %d tones %d harmonics" % (nf, np_), one)


def _padded(g):
    g = g.copy()
    g[0], g[:, 0] = 0, 0
    return g


def h04(ctx):
    rng = ctx.rng()

    def state(c):
        return [project(x) for x in (c.freq, c.zt, c.vb, np.array([c.num_f, c.num_p, c.num_n, c.vb_npts]))]

    for rep in range(ctx.n(15, 100)):
        for nf, np_, top in SHAPES:
            for mode in ("o", "x", "m", "p"):
                def one():
                    npts = int(rng.integers(1, 4))
                    c = Circuit(rng, nf, np_, npts, min(3, top), pick_resp(rng), idle=.3, short=.1)
                    if rng.random() < .3:
                        c.vt[1:, 1:] *= 10. ** np.where(rng.random((nf, np_)) < .4, rng.uniform(-11, -5, (nf, np_)), 0)
                    if rng.random() < .3:
                        c.vt[0, :] = .2
                        c.zt[:, 0] = .3
                    if rng.random() < .3:
                        c.zt[1:, 1:] *= 10. ** np.where(rng.random((nf, np_)) < .4, rng.uniform(-15, -3, (nf, np_)), 0)
                    if rng.random() < .1:
                        c.zt[:] = 0
                    cct = c.make()
                    g = c.guess(rng) if rng.random() < .7 else None
                    if g is not None and rng.random() < .5:
                        g = np.asfortranarray(g)
                    # repetition: the second run sees the same circuit object
                    vt0, before, g0 = project(cct.vt), state(cct), project(g)
                    kw = dict(max_it=int(rng.integers(0, 4)), damp_coeff=float(rng.choice([1., .5])),
                              stop_rerror=float(rng.choice([1e-3, 1e-9])), verbose=bool(rng.random() < .2))

                    def go(cct):
                        r, e, _ = c.run(mode, guess=g, cct=cct, **kw)
                        if e is not None:
                            return failed(e)
                        return project(r[0] if mode in "xm" else r)
                    first = go(cct)
                    second = go(cct)
                    ctx.add({"op": "intact", "mode": mode, "u": {"nf": nf, "np": np_, "npts": npts},
                             "first": first, "second": second, "guess0": g0, "guess1": project(g),
                             "before": before, "after": state(cct), "vt0": vt0, "vt1": project(cct.vt)})
                ctx.guard("h04 " + mode, one)


def h05(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(9, 60)):
        for nf, np_, top in [(1, 1, 8), (1, 2, 9), (2, 1, 8), (1, 3, 10), (2, 2, 8), (3, 1, 5), (4, 1, 4)]:
            def ohm(damp):
                npts = int(rng.integers(1, 4)) if nf < 3 else 1
                c = Circuit(rng, nf, np_, npts, top, Ohm(), zscale=rng.choice([.5, 2., 1e-3]), short=.1, idle=rng.choice([0., .2]),
                            vamp=.3 if nf < 3 else .05, flow=2500)
                g = c.guess(rng, amp=.05) if rng.random() < .5 else None
                tol = float(rng.choice([1e-3, 1e-5])) if damp == 1. else 1e-9
                N = 3 if damp < 1 else int(rng.integers(1, 4))
                runs = [c.run_x(max_it=n, guess=g, stop_rerror=tol, damp_coeff=damp)[0] for n in range(N + 1)]
                ctx.add(c.base(op="ohm", tol=F(tol), damp=F(damp), runs=runs))
            ctx.guard("h05 ohmic", ohm, 1.)
            ctx.guard("h05 ohmic damped", ohm, float(rng.choice([.9, .5, .3])))

            def mixed():
                npts = int(rng.integers(1, 4))
                c = Circuit(rng, nf, np_, npts, min(top, 4), pick_resp(rng), zscale=.4, idle=.2)
                if nf * np_ > 1:
                    c.zt[int(rng.integers(1, nf + 1)), int(rng.integers(1, np_ + 1))] = 0
                r, v = c.run_x(max_it=12, stop_rerror=1e-3)
                if r["flag"] or not r["v"]["ok"]:
                    ctx.add(c.base(op="shorted", exact=False, tol=F(1e-3), out=r["v"], flag=r["flag"], it=r["it"],
                                   mask=NONE))
            ctx.guard("h05 mixed", mixed)
    _shorted(ctx, rng)
