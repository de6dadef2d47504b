"""Data cleaning: generator for E01."""
import json
import re
import numpy as np
from common import FS, Machinery, project, call, call_raw, failed


def pair(what, fn, *a, **k):
    out, exc = call_raw(fn, *a, **k)
    rec = {"what": what, "ok": exc is None, "x": {"ok": False}, "y": {"ok": False}}
    if exc is None:
        try:
            if what.endswith("_matrix"):
                rec["ok"] = out.ndim == 2 and out.shape[1] == 2
                x, y = out[:, 0], out[:, 1]
            else:
                x, y = out
            rec["x"], rec["y"] = project(x), project(y)
        except Exception as e:
            rec["ok"] = False
            return rec, None
        return rec, out
    return rec, None


def case(ctx, rng, x, y, label):
    import qmix.exp.clean_data as cd
    x, y = np.array(x, float), np.array(y, float)
    m = np.column_stack((x, y))
    keep = x.copy(), y.copy(), m.copy()
    col = int(rng.integers(2))
    outs = [pair("xy_to_matrix", cd.xy_to_matrix, x, y)[0], pair("matrix_to_xy", cd.matrix_to_xy, m)[0]]

    def add(what, fn, *a, src=None, **k):
        rec, out = pair(what, fn, *a, **k)
        if src is not None:
            rec["sx"], rec["sy"] = FS(src[0]), FS(src[1])
        outs.append(rec)
        return out
    a = add("remove_nans_xy", cd.remove_nans_xy, x, y)
    b = add("remove_nans_matrix", cd.remove_nans_matrix, m)
    if a is not None and b is not None:
        ax, ay = a
        if col == 0:
            add("sort_xy", cd.sort_xy, ax, ay)
        else:
            outs.append(pair("sort_matrix", cd.sort_matrix, b, 1)[0])
        st = (lambda: cd.sort_matrix(b, col=1)) if col else (lambda: cd.sort_matrix(b))
        s, exc = call_raw(st)
        if exc is None:
            if col == 0:
                add("remove_doubles_xy", cd.remove_doubles_xy, s[:, 0].copy(), s[:, 1].copy(), src=s.T)
                add("remove_doubles_matrix", cd.remove_doubles_matrix, s, src=s.T)
            else:
                add("remove_doubles_matrix", cd.remove_doubles_matrix, s, 1, src=s.T)
        outs.append(pair("sort_matrix", st)[0])
    c = add("clean_xy", cd.clean_xy, x, y)
    d = add("clean_matrix", cd.clean_matrix, m)
    if c is not None:
        add("again_xy", cd.clean_xy, *c, src=c)
    if d is not None:
        add("again_matrix", cd.clean_matrix, d, src=d.T)
    same = all(np.array_equal(p, q, equal_nan=True) for p, q in zip((x, y, m), keep))
    ctx.add({"op": "clean", "case": label, "x": FS(x), "y": FS(y), "col": col, "outs": outs, "same": same})


def e01(ctx):
    import qmix.exp.clean_data as cd
    rng = ctx.rng()
    r = ctx.tlc("Cleaning_MC", "Cleaning_gen4.cfg" if ctx.thorough else "Cleaning_gen.cfg", timeout=900)
    hists = sorted(json.loads(m) for m in re.findall(r'"HIST\|(.*?)"', r.out))
    if len(hists) < 1000:
        raise Machinery("TLC produced %d inputs" % len(hists))
    val = [np.nan, -1.5, 0.25, 3.]
    for h in hists:
        ctx.guard("enumerated", case, ctx, rng, [val[s[0]] for s in h], [val[s[1]] for s in h], "enumerated %s" % h)
    for rep in range(ctx.n(404, 3000)):
        def one():
            n = int(rng.choice([1, 2, 5, 20, 60]))
            if rep % 202 == 201:
                n = int(rng.integers(1400, 1700))
            x = rng.choice([rng.normal(size=n), rng.integers(-3, 4, n) + 1., np.round(rng.normal(size=n), 1) + 1e-9])
            if n > 1000:
                x = np.round(x * 10) / 10            # many equal values
            if rng.random() < .3:
                x = np.sort(x)
            if rng.random() < .2:
                x = x[::-1]
            y = rng.normal(size=n)
            if rng.random() < .25 and n > 1:      # nearly equal, yet distinct, values
                k = rng.integers(0, n, n // 2 + 1)
                x = x.copy()
                d = rng.choice([1, 2e-16, 4e-16, 1e-12, 1e-9, 1e-6]) * rng.integers(1, 4, len(k))
                x[k] = x[int(rng.integers(n))] * (1 + np.where(d < 1, d, 2. ** -52))
            x, y = (a * 10. ** rng.choice([0, 0, 0, -3, -15, -200, 9, 200]) for a in (x, y))
            if rng.random() < .4:
                x, y = (np.where(rng.random(n) < q, rng.choice([0., -0., np.inf, -np.inf, 5e-324], n), a)
                        for a, q in ((x, .1), (y, .2)))
            p = rng.choice([0, .1, .6]) if n <= 1000 else .05
            x = np.where(rng.random(n) < p, np.nan, x)
            y = np.where(rng.random(n) < p, np.nan, y)
            case(ctx, rng, x, y, "random %d" % n)
        ctx.guard("random", one)
    for rep in range(ctx.n(150, 1500)):
        def unsorted():
            n = int(rng.integers(1, 8))
            x = rng.integers(0, 3, n) * 1.
            y = rng.integers(0, 3, n) * 1.
            if rng.random() < .5:
                x = np.sort(x)
            if rng.random() < .5:
                y = np.sort(y)
            col = int(rng.integers(2))
            m = np.column_stack((x, y))
            k = rng.integers(2)
            if k == 0:
                col = 0
                out = call(lambda: cd.remove_doubles_xy(x, y)[0])
            else:
                out = call(cd.remove_doubles_matrix, m, col)
            ctx.add({"op": "unsorted", "x": FS(x), "y": FS(y), "col": col, "out": out})
        ctx.guard("unsorted", unsorted)
    for w in (1, 3):
        ctx.add({"op": "rejected", "case": "columns", "out": call(cd.clean_matrix, np.ones((4, w)))})
    ctx.add({"op": "rejected", "case": "lengths", "out": call(lambda: cd.clean_xy(np.arange(4.), np.arange(3.))[0])})
