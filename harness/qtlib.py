"""Builders of junction set-ups (the "u" records of spec/QT.tla)."""
import itertools
import numpy as np
from common import FS, CS, CN, F, align, holes as some_holes

UNIT = 10000000         # frequencies are integers in 1e-7 of the gap frequency


def key4(n):
    return (n + 500) // 1000 if n >= 0 else -((500 - n) // 1000)


def safe_freqs(f, np_, spread=0, low=20000):
    """No mixing product near a rounding tie, none but a=0 on DC."""
    for a in itertools.product(range(-np_, np_ + 1), repeat=len(f)):
        s = sum(x * y for x, y in zip(a, f))
        if abs(abs(s) % 1000 - 500) < 20:
            return False
        if any(a) and abs(s) < low - spread:
            return False
    return True


def distinct_products(f, np_):
    seen = set()
    for a in itertools.product(range(-np_, np_ + 1), repeat=len(f)):
        k = key4(sum(x * y for x, y in zip(a, f)))
        if k in seen:
            return False
        seen.add(k)
    return True


def pick_freqs(rng, nf, np_, distinct=False, fine=False, close=False):
    """close: the last two tones are so near each other that their difference is far below 0.01 of the gap."""
    wide = rng.random() < .3 and not close      # from an intermediate frequency to well above the gap
    for _ in range(100000):
        if wide:
            f = [int(x) // (1 if fine else 1000) * (1 if fine else 1000) for x in 1e7 * np.exp(rng.uniform(np.log(.02), np.log(1.7), nf))]
        elif fine:
            f = [int(x) for x in rng.integers(1500000, 6000000, nf)]
        else:
            f = [int(x) * 1000 for x in rng.integers(1500, 6000, nf)]
        if close and nf > 1:
            f[-1] = f[-2] + int(rng.integers(2, 30)) * 1000
        if safe_freqs(f, np_, low=1600 if close else 20000) and (not distinct or distinct_products(f, np_)):
            return f
    raise RuntimeError("no frequencies")


class Trig:
    """A smooth complex response the specification evaluates itself."""

    def __init__(self, rng, rough=True):
        c = rng.normal(size=7)
        c[2] = rng.uniform(1, 9 if rough else 2)
        c[6] = rng.uniform(1, 9 if rough else 2)
        self.c = c
        self.calls = 0

    def __call__(self, v):
        c = self.c
        self.calls += 1
        return (c[0] + c[1] * np.cos(c[2] * v) + c[3] * v) + 1j * (c[4] * v + c[5] * np.sin(c[6] * v))

    def rec(self, *a):
        return {"kind": "trig", "c": FS(self.c)}


class Ohm:
    def __call__(self, v):
        return 1j * np.asarray(v, dtype=float)

    def rec(self, *a):
        return {"kind": "ohm", "c": []}


class Table:
    """Any response object; its values are recorded from its own call."""

    def __init__(self, obj):
        self.obj = obj

    def __call__(self, v):
        return self.obj(v)

    def rec(self, f, nb, vb):
        def tree(t, v):
            if t == len(f):
                return CS(self.obj(v))
            return [tree(t + 1, v + k * (f[t] / UNIT)) for k in range(-nb[t], nb[t] + 1)]
        return {"kind": "tab", "R": tree(0, np.asarray(vb, dtype=float)), "c": []}


def drive(rng, nf, np_, npts, amp=0.4, holes=0.15):
    v = rng.normal(size=(nf, np_, npts)) + 1j * rng.normal(size=(nf, np_, npts))
    v *= amp * rng.uniform(0.1, 1, size=(nf, np_, 1))
    v = align(rng, v, .2)
    if holes:
        some_holes(rng, v, holes)
    return v


class Setup:
    """A circuit with frequencies, bias, junction voltage and response."""

    def __init__(self, f, np_, vb, vj, resp, nb):
        from qmix.circuit import EmbeddingCircuit
        self.f, self.np, self.resp = list(f), np_, resp
        self.vb = np.asarray(vb, dtype=float)
        self.nf, self.npts = len(f), len(self.vb)
        nbs = (nb,) * self.nf if isinstance(nb, int) else tuple(nb)
        self.num_b = nb
        self.nb = list(nbs[:self.nf])
        self.nmax = max(nbs)
        self.vjs = np.asarray(vj, dtype=complex)       # [f][p][i], no padding
        cct = EmbeddingCircuit(self.nf, np_, vb_npts=self.npts)
        cct.freq[1:] = np.array(self.f) / UNIT
        cct.vb = self.vb.copy()
        self.cct = cct
        self.vj = np.zeros((self.nf + 1, np_ + 1, self.npts), dtype=complex)
        self.vj[1:, 1:] = self.vjs

    def rec(self):
        return {"nf": self.nf, "np": self.np, "npts": self.npts, "nb": self.nb, "nmax": self.nmax,
                "f": self.f, "vj": CN(self.vjs), "vb": FS(self.vb),
                "resp": self.resp.rec(self.f, self.nb, self.vb)}

    def current(self, req, **kw):
        from qmix.qtcurrent import qtcurrent
        from common import call
        kw.setdefault("verbose", False)
        return call(qtcurrent, self.vj, self.cct, self.resp, [q / UNIT for q in req], self.num_b, **kw)


def some_products(rng, f, np_, k):
    """k random mixing products (as frequencies)."""
    out = []
    for _ in range(k):
        a = rng.integers(-np_, np_ + 1, len(f))
        out.append(int(sum(int(x) * y for x, y in zip(a, f))))
    return out


def bias(rng, npts):
    lo = rng.uniform(-1.5, 1.0)
    return np.sort(rng.uniform(lo, lo + 2, npts)) if rng.random() < 0.5 else np.linspace(lo, lo + 1.7, npts)
