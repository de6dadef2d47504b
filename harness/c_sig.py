"""Mathematical functions: generators for M01-M03 and R03."""
import numpy as np
from common import F, FS, project, call, failed


def rec_call(fn, *a, **k):
    """outcome of a call and whether its array arguments were left alone"""
    arrs = [x for x in a if isinstance(x, np.ndarray)]
    before = [x.copy() for x in arrs]
    out = call(fn, *a, **k)
    return out, all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y) for x, y in zip(arrs, before))


def grid(rng, n, kind=None):
    kind = kind or rng.choice(["even", "uneven", "down", "random"])
    if kind == "even":
        x = rng.normal() + np.arange(n) * rng.uniform(.01, 2)
    elif kind == "random":
        x = rng.permutation(np.cumsum(rng.uniform(.1, 1, n)))       # not monotonic, no repeated values
    else:
        x = rng.normal() + np.cumsum(rng.uniform(.05, 1, n))
    return x[::-1].copy() if kind == "down" else x


def data(rng, n):
    k = rng.integers(6)
    t = np.linspace(-1, 1, n)
    y = [rng.normal(size=n), np.zeros(n), t ** 2, np.sin(5 * t), rng.integers(-1, 2, n).astype(float),
         np.where(rng.random(n) < .1, 1., 0.)][k]
    return y * 10. ** rng.integers(-6, 4)


def some_integers(rng, n):
    """whole numbers, as large and small as their type can hold"""
    t = [np.int64, np.int64, np.uint8, np.int8, np.uint16, np.int16][rng.integers(6)]
    return rng.integers(-5, 5, n) if t is np.int64 else rng.integers(np.iinfo(t).min, np.iinfo(t).max, n, endpoint=True, dtype=t)


def m01(ctx):
    from qmix.mathfn.misc import slope, slope_span_n
    rng = ctx.rng()
    for rep in range(ctx.n(800, 4000)):
        def one():
            n = int(rng.choice([2, 3, 4, 5, 8, 13, 40, 101]))
            if rep % 100 == 99:
                n = int(rng.integers(500, 3000))
            x = grid(rng, n)
            y = data(rng, n) if rng.random() < .8 else some_integers(rng, n)
            out, same = rec_call(slope, x, y)
            ctx.add({"op": "slope", "x": FS(x), "y": FS(y), "out": out, "same": same,
                     "scale": F(np.abs(y).max() / np.abs(np.diff(x)).min() * 1e-3)})
        ctx.guard("slope", one)

        def span():
            h = int(rng.choice([1, 2, 3, 5, 10]))
            n = 2 * h + 1
            L = int(3 * h + rng.integers(4, 20))
            if rep % 100 == 99:
                L = int(rng.integers(500, 3000))
            x = grid(rng, L, rng.choice(["even", "uneven", "down"]))
            line = rng.random() < .25
            m = float(rng.choice([0., rng.normal()]))
            y = m * x + rng.normal() if line else data(rng, L) if rng.random() < .8 else some_integers(rng, L)
            nz = bool(rng.random() < .6)
            a = () if n == 11 and rng.random() < .5 else (n,)
            kw = {} if nz and rng.random() < .5 else {"nozeros": nz}
            out, same = rec_call(slope_span_n, x, y, *a, **kw)
            ctx.add({"op": "span", "n": n, "nozeros": nz, "x": FS(x), "y": FS(y), "out": out, "same": same,
                     "line": {"is": line, "slope": F(m)},
                     "scale": F((np.abs(y).max() + 1e-12) / np.abs(np.diff(x)).min() * 1e-3)})
        ctx.guard("span", span)
    for n in (2, 4, 10, 12, 0):
        x = np.arange(40.)
        ctx.add({"op": "rejected", "case": "span %d" % n, "out": call(slope_span_n, x, x ** 2, n)})


def safe_sigma(rng, wide=False):
    """a width whose window is not at a rounding tie, and its truncation"""
    while True:
        ext = float(rng.choice([3., 3., 2., 4., 2.5, 5., rng.uniform(1, 6)]))
        s = float(rng.choice([1., 2., 3., .5, rng.uniform(.3, 8), rng.uniform(.3, 8)]))
        if wide:
            s = float(rng.uniform(8, 60))
        if rng.random() < .3:           # a whole number of points, up to rounding
            s = float(max(1, round(ext * s)) / ext)
            for _ in range(rng.integers(8)):        # often just below that number
                if ext * s >= round(ext * s):
                    ext = float(np.nextafter(ext, 0)) if rng.random() < .5 else float(rng.uniform(1, 6))
                    s = float(max(1, round(ext * s)) / ext)
        f = ext * s - round(ext * s)
        if ext * s >= 1 and (abs(f) < 1e-12 or abs(f) > 1e-3):
            return s, ext


def m02(ctx):
    from qmix.mathfn.filters import gauss_conv
    rng = ctx.rng()
    for rep in range(ctx.n(1000, 5000)):
        def one():
            s, ext = safe_sigma(rng, wide=rep % 10 == 0)
            w = 2 * int(s * ext + 1e-5) + 1
            n = int(rng.choice([w, w, w + 1, w + 2, 2 * w, w + int(rng.integers(0, 60))]))
            if rep % 100 == 99:
                n = int(rng.integers(1000, 3000))
            x = data(rng, n)
            if rng.random() < .15:
                x = np.zeros(n)
                x[int(rng.integers(n))] = 1
            elif rng.random() < .1:
                x = rng.integers(-5, 6, n)
            kw = {"sigma": s, "ext_x": ext}
            if ext == 3 and rng.random() < .5:
                kw.pop("ext_x")
            if s == int(s) and rng.random() < .3:
                kw["sigma"] = int(s)
            out, same = rec_call(gauss_conv, x, **kw)
            ctx.add({"op": "gauss", "x": FS(x), "sigma": F(s), "ext": F(ext), "out": out, "same": same,
                     "scale": F(np.abs(x).max())})
        ctx.guard("gauss", one)
        def default():
            x = data(rng, int(rng.integers(61, 130)))
            out, same = rec_call(gauss_conv, x)
            ctx.add({"op": "gauss", "x": FS(x), "sigma": F(10), "ext": F(3), "out": out, "same": same,
                     "scale": F(np.abs(x).max())})
        if rep % 20 == 0:
            ctx.guard("gauss default", default)
    for s, ext, n in ((.2, 3, 30), (.3, 3, 30), (0, 3, 30), (.9, 1, 30), (.5, 1.9, 30), (10, 3, 60), (3, 3, 18), (2, 5, 20),
                      (1.4, 3, 8), (10, 3, 5)):
        ctx.add({"op": "rejected", "case": "gauss %g %g %d" % (s, ext, n),
                 "out": call(gauss_conv, np.arange(float(n)), sigma=s, ext_x=ext)})


def m03(ctx):
    import qmix.mathfn.ivcurve_models as iv
    rng = ctx.rng()

    def forms(v):
        """the same voltages as array, scalars, 2-d, integers"""
        k = rng.integers(7)
        if k <= 2:
            return v
        if k == 3:
            return v[:12].reshape(3, 4)
        if k == 4:
            return [float(v[0]), np.float64(v[1]), float(rng.choice([1., -1., 0., 2.]))][rng.integers(3)]
        if k == 5:
            k = rng.integers(-3, 4)
            return [int(k), k, np.array(k, dtype=float)][rng.integers(3)]
        return rng.integers(-3, 4, 8)

    for rep in range(ctx.n(120, 600)):
        for name in ("perfect", "perfect_kk", "polynomial", "fixed", "original", "expanded"):
            def one():
                v = np.r_[rng.uniform(-2.5, 2.5, 12), rng.normal(0, 10, 3), [0., 1., -1., 2., -.5, 35., -34.]]
                v = np.r_[v, 1 + rng.normal(0, .02, 3), -1 + rng.normal(0, .02, 3)]
                v = rng.permutation(v)
                v = forms(v)
                q, kw = {}, {}
                if name == "perfect":
                    fn = iv.perfect
                elif name == "perfect_kk":
                    fn = iv.perfect_kk
                    cap = float(rng.choice([100., 7.5]))
                    q = {"cap": F(cap)}
                    kw = {} if cap == 100 and rng.random() < .6 else {"max_kk": cap}
                elif name == "polynomial":
                    fn = iv.polynomial
                    order = int(rng.choice([50, 30, 10, 3, 1, 60, 110, 200]))
                    q = {"order": order}
                    kw = {} if order == 50 and rng.random() < .6 else {"order": order}
                else:
                    fn = iv.expanded if name == "expanded" else iv.exponential
                    p = {"vgap": 2.8e-3, "rn": 14., "rsg": 500. if name == "expanded" else 300., "agap": 4e4}
                    if name == "expanded":
                        p.update(a0=1e4, ileak=5e-6, vnot=2.85e-3, inot=1e-5, anot=2e4, ioff=1e-5)
                    kw = {}
                    for k in p:
                        if rng.random() < .5:
                            p[k] = kw[k] = float(p[k] * rng.uniform(.8, 1.3))
                    if name == "original":
                        kw["model"] = str(rng.choice(["original", "Original", "ORIGINAL"]))
                    elif name == "fixed" and rng.random() < .6:
                        kw["model"] = str(rng.choice(["fixed", "corrected", "Fixed", "CORRECTED"]))
                    q = {k: F(x) for k, x in p.items()}
                out, same = rec_call(fn, v, **kw)
                mirror, same2 = rec_call(fn, -v, **kw)
                ctx.add({"op": "model", "name": name, "q": q, "v": FS(v), "shape": list(np.shape(v)), "out": out,
                         "mirror": mirror, "same": same and same2, "case": "%s %s" % (name, type(v).__name__)})
            ctx.guard("model " + name, one)
    for m in ("", "fix", "new", "originals"):
        ctx.add({"op": "rejected", "case": "model " + m, "out": call(iv.exponential, np.linspace(0, 2, 5), model=m)})


def r03(ctx):
    from qmix.mathfn.kktrans import kk_trans, kk_trans_trapz
    from qmix.mathfn.ivcurve_models import perfect, perfect_kk
    rng = ctx.rng()

    def curve(v):
        k = rng.integers(6)
        if k == 0:
            return rng.normal(size=len(v)), False, False
        if k == 1:
            return v.copy(), True, False
        if k == 2:
            return np.where(np.abs(v) > 1, v, 0.), False, True
        if k == 3:
            return v + rng.normal() * v / (1 + v ** 4), False, True
        if k == 4:
            x = np.zeros(len(v))
            x[rng.integers(len(v))] = 1
            return x + v, False, False
        return v ** 51 / (1 + v ** 50), False, True

    for rep in range(ctx.n(300, 1500)):
        def one():
            n = int(rng.choice([2, 3, 4, 7, 10, 21, 50, 101, 102] + ([151, 256] if rep % 10 == 0 else [])))
            if rep % 150 == 149:
                n = int(rng.integers(1000, 1300))
            if rng.random() < .7:
                v = np.linspace(-1, 1, n) * rng.choice([rng.uniform(1.2, 4), 10. ** rng.uniform(-2, 2)])
                sym = True
            else:
                v = rng.normal() + np.arange(n) * rng.uniform(.01, .3)
                sym = False
            i, ohmic, odd = curve(v)
            pad = int(rng.choice([1, 2, 3, 5, 50, 50, rng.integers(1, 400)]))
            kw = {} if pad == 50 and rng.random() < .5 else {"n": pad}
            out, same = rec_call(kk_trans, v, i, **kw)
            ctx.add({"op": "kk", "v": FS(v), "i": FS(i), "n": pad, "out": out, "same": same, "ohmic": ohmic,
                     "odd": bool(odd and sym), "scale": F(np.abs(i).max() + np.abs(v).max())})
        ctx.guard("kk", one)
    for rep in range(ctx.n(80, 300)):
        def trapz():
            n = int(rng.choice([3, 7, 20, 51]))
            v = np.linspace(-1, 1, n) * rng.uniform(1.2, 4)
            i, _, _ = curve(v)
            out, same = rec_call(kk_trans_trapz, v, i)
            ctx.add({"op": "trapz", "v": FS(v), "i": FS(i), "out": out, "same": same,
                     "scale": F(10 * (np.abs(i).max() + np.abs(v).max()))})
        ctx.guard("trapz", trapz)

        def bad():
            n = int(rng.choice([5, 20, 60]))
            v = np.linspace(-2, 2, n)
            k = int(rng.integers(1, n))
            d = float(rng.choice([-1, 1]) * 10. ** rng.uniform(-3, -1.3))
            what = rng.integers(2)
            if what:
                v[k:] += d                    # one step longer or shorter
            else:
                v[k] += d                     # one sample displaced
            if k == 1 and what:
                v = np.r_[v[0] - d - .01, v]
            i = v.copy()
            for fn in (kk_trans, kk_trans_trapz):
                ctx.add({"op": "rejected", "case": "uneven " + fn.__name__, "out": call(fn, v, i)})
        ctx.guard("uneven", bad)
    def agree():
        v = np.linspace(-30, 30, 6001)
        at = [int(k) + 1 for k in np.flatnonzero((np.abs(np.abs(v) - 1) > .1) & (np.abs(v) < 2))][::7]
        ctx.add({"op": "agree", "case": "ideal junction", "fft": call(kk_trans, v, perfect(v)),
                 "ref": call(perfect_kk, v), "at": at, "tol": F(.03)})
        v = np.linspace(-10, 10, 801)
        i = v + 2 * np.sin(v) * np.exp(-v ** 2 / 3)
        at = list(range(200, 601, 5))
        # the trapezoidal rule loses about (i - v)' h / pi at the singular point
        ctx.add({"op": "agree", "case": "smooth", "fft": call(kk_trans, v, i), "ref": call(kk_trans_trapz, v, i),
                 "at": at, "tol": F(.05)})
    ctx.guard("agree", agree)
