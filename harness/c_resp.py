"""Response functions: generators for R01, R02, R04, R05."""
import numpy as np
from common import F, FS, project, call, call_raw, failed, quiet


def source(rng, kind=None, smear=None):
    """(src record, constructor, normal-line?, tolerances) of a random response function"""
    import qmix.respfn as rf
    kind = kind or rng.choice(["perfect", "polynomial", "exponential", "data", "grid"])
    kw = {"verbose": False}
    if rng.random() < .5:
        kw["kk_n"] = int(rng.choice([3, 7, 20, 50]))
    if rng.random() < .3:
        kw["spline_order"] = int(rng.choice([3, 2]))
    src = {"kind": str(kind)}
    args = []
    normal = True
    tol = (1e-3, 1e-3)
    if kind == "perfect":
        cls = rf.RespFnPerfect
    elif kind == "polynomial":
        cls = rf.RespFnPolynomial
        src["order"] = int(rng.choice([50, 30, 20, 12, 60, 120]))
        if src["order"] != 50 or rng.random() < .5:
            args = [src["order"]]
        normal = src["order"] >= 20
    elif kind == "exponential":
        cls = rf.RespFnExponential
        q = {"vgap": 2.8e-3, "rn": 14., "rsg": 1000., "agap": 4e4}
        for k in q:
            if rng.random() < .5:
                q[k] = kw[k] = float(q[k] * rng.uniform(.8, 1.25))
        src["q"] = {k: F(x) for k, x in q.items()}
        normal = True
    elif kind == "data":
        cls = rf.RespFnFromIVData
        n = int(rng.integers(60, 300))
        top = float(rng.uniform(1.5, 4))
        v = np.linspace(float(rng.choice([0., -.4, -top, .004])), top, n)
        if rng.random() < .4:
            v = np.sort(rng.uniform(v[0], top, n))
        o = int(rng.choice([15, 25, 40]))
        i = v ** (2 * o + 1) / (1 + v ** (2 * o)) + rng.uniform(0, .05) * v
        d = float(rng.choice([0., rng.uniform(.1, .25), rng.uniform(.1, .25), -.1]))    # deficit (excess) current above the gap
        i = i - d * v ** (2 * o) / (1 + v ** (2 * o))
        i = i + np.where(v < 0, .3, 0)              # negative voltages must not matter
        lim = 1.8
        if rng.random() < .6:
            lim = kw["vlimit"] = float(rng.uniform(1.3, 2.2))
        args = [v, i]
        src.update(v=FS(v), i=FS(i), vlimit=F(lim))
        normal = False
        tol = (2e-2, 5e-2)
    else:
        cls = rf.RespFn
        h, n = ((.01, 1001), (.02, 401), (.005, 1300), (.0125, 640))[rng.integers(4)]
        v = np.arange(n) * h
        o = int(rng.choice([10, 20, 30]))
        i = v ** (2 * o + 1) / (1 + v ** (2 * o)) + float(rng.choice([0., .01])) * v
        args = [v, i]
        src.update(v=FS(v), i=FS(i))
        normal = False
        tol = (2e-3, 2e-3)
    if smear is None:
        smear = 0.
    s = {"is": bool(smear), "sigma": F(smear)}
    if smear:
        kw["v_smear"] = smear
    return src, cls, args, kw, normal, tol, s


def build(cls, args, kw):
    before = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    obj, exc = call_raw(cls, *args, **kw)
    same = all(np.array_equal(a, b) for a, b in zip(args, before))
    return obj, exc, same


def table(ctx, rng, kind, smear, curve=True, nkk=8):
    src, cls, args, kw, normal, tol, s = source(rng, kind, smear)
    obj, exc, same = build(cls, args, kw)
    case = "%s %s" % (cls.__name__, {k: v for k, v in kw.items() if k != "verbose"})
    g = np.asarray(args[0]) if kind == "grid" else np.linspace(0, 35, 7001)
    n = 2 * len(g) - 1
    if exc is not None:
        ctx.add({"op": "table", "case": case, "made": failed(exc), "same": same})
        return
    c = n // 2
    step = g[1]
    near = c + np.rint(rng.uniform(.8, 1.2, 60) / step).astype(int)
    at = np.r_[c, c + 1, c - 1, 0, 1, n - 1, near, 2 * c - near[:20], rng.integers(0, n, 60)]
    at = np.r_[at, c + np.rint(rng.uniform(0, 2.5, 80) / step).astype(int)]
    at = np.unique(at)
    if not s["is"]:
        pass
    elif kind == "data":
        at = np.unique(rng.choice(at, 60))
    kkat = np.unique(np.r_[c, rng.choice(at, nkk)])
    rec = {"op": "table", "case": case, "src": src, "smear": s, "normal": bool(normal and not (s["is"] and src["kind"] == "polynomial" and src["order"] < 30)),
           "made": project(0.), "same": same, "n": int(kw.get("kk_n", 50)),
           "v": FS(np.r_[-g[:0:-1], g]),
           "at": [int(k) + 1 for k in at], "kkat": [int(k) + 1 for k in kkat],
           "tv": project(obj.voltage), "ti": project(obj.current), "tkk": project(obj.current_kk), "tvkk": project(obj.voltage_kk)}
    ctx.add(rec)
    if curve:
        v = np.asarray(obj.voltage)
        lim = 34 if kind != "grid" else g[-1] * .7
        at = at[np.abs(v[at]) < lim]
        ctx.add({"op": "curve", "case": case, "src": src, "normal": rec["normal"] and not s["is"] and src.get("order", 99) >= 20,
                 "v": FS(v[at]), "ti": FS(obj.current[at]), "tkk": FS(obj.current_kk[at]),
                 "idc": call(obj.idc, v[at]), "ikk": call(obj.ikk, v[at]), "tol": F(tol[0]), "tolkk": F(tol[1])})


def r02(ctx):
    rng = ctx.rng()
    import qmix.respfn as rf
    for rep in range(ctx.n(8, 40)):
        for kind in ("perfect", "polynomial", "exponential", "data", "grid", "grid", "data"):
            ctx.guard("table " + kind, table, ctx, rng, kind, None)
    for k in range(ctx.n(26, 80)):
        def bad():
            v = np.linspace(0, 10, 501)
            what = rng.integers(3)
            if what == 0:
                v = v + float(rng.choice([1e-3, -1e-3, .5]))
            elif what == 1:
                v = np.linspace(0, float(rng.choice([5., 4.99, 2.])), 501)
            else:
                v = v[1:]
            i = v ** 21 / (1 + v ** 20)
            ctx.add({"op": "rejected", "case": "grid %d" % what, "out": call(lambda: rf.RespFn(v, i, verbose=False) and 0)})
        ctx.guard("bad", bad)


SMEARS = [.01, .02, .015, .05, .0087, .0123, .1]


def r04(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(10, 50)):
        for kind in ("perfect", "polynomial", "exponential", "data", "grid", "grid"):
            s = float(rng.choice(SMEARS)) if rng.random() < .7 else float(rng.uniform(.008, .06))
            if kind == "grid":
                s = float(rng.uniform(.03, .1))
            for h in (.005, .01, .02, .0125):         # keep the window away from rounding ties
                while 1e-9 < abs(3 * s / h - round(3 * s / h)) < 1e-3:
                    s *= 1.0123
            ctx.guard("smear " + kind, table, ctx, rng, kind, s, curve=True, nkk=5)
            if rep % 3 == 0:
                ctx.guard("none " + kind, table, ctx, rng, kind, None, curve=False, nkk=3)


def evaluate(ctx, h, obj, v, case, same, deriv, tols):
    keep = np.copy(v)
    flat = np.atleast_1d(v).ravel()

    def many(f):
        return [float(f(float(x))) for x in flat]
    m = -v
    rec = {"op": "eval", "case": case, "v": FS(flat), "shape": list(np.shape(v)), "h": F(h), "deriv": deriv,
           "idc": call(obj.idc, v), "ikk": call(obj.ikk, v), "mdc": call(obj.idc, m), "mkk": call(obj.ikk, m),
           "resp": call(obj.resp, v), "called": call(obj, v), "conj": call(obj.resp_conj, v), "swap": call(obj.resp_swap, v),
           "single": {"idc": FS(many(obj.idc)), "ikk": FS(many(obj.ikk))},
           "tolodd": F(tols[0]), "toleven": F(tols[1])}
    if deriv:
        rec["didc"], rec["dikk"] = call(obj.didc, v), call(obj.dikk, v)
        rec["up"] = {"idc": FS(obj.idc(flat + h)), "ikk": FS(obj.ikk(flat + h))}
        rec["down"] = {"idc": FS(obj.idc(flat - h)), "ikk": FS(obj.ikk(flat - h))}
    rec["same"] = same and np.array_equal(keep, v)
    ctx.add(rec)


def r01(ctx):
    rng = ctx.rng()
    h = 2e-5
    for rep in range(ctx.n(10, 50)):
        for kind in ("perfect", "polynomial", "exponential", "data", "grid"):
            for sm in (None, .02 if kind != "grid" else .05):
                def one():
                    src, cls, args, kw, normal, tol, s = source(rng, kind, sm)
                    obj, exc, same = build(cls, args, kw)
                    if exc is not None:
                        raise exc
                    lim = 34 if kind != "grid" else args[0][-1] * .8
                    for form in ("1d", "2d", "float", "int", "3d", "0", "far"):
                        v = rng.permutation(np.r_[rng.uniform(-2.5, 2.5, 26), rng.uniform(.9, 1.1, 4), -rng.uniform(.9, 1.1, 4),
                                                  rng.uniform(-lim, lim, 4), 0., .5])
                        v = {"1d": v, "2d": v.reshape(8, 5), "3d": v.reshape(2, 4, 5), "float": float(v[0]),
                             "int": [int, np.int64][rep % 2](rng.integers(-4, 5)), "0": np.float64(v[1]), "far": rng.uniform(-lim, lim, 12)}[form]
                        evaluate(ctx, h, obj, v, "%s %s smear=%s" % (cls.__name__, form, sm), same,
                                 deriv=not (kind == "perfect" and not sm),
                                 tols=(max(tol[0], 1e-3), max(tol[1], 1e-3)))
                ctx.guard("eval " + kind, one)
            if rep % 3 == 0:
                ctx.guard("table " + kind, table, ctx, rng, kind, None, curve=False, nkk=3)


def r05(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(48, 200)):
        def one():
            kind = rng.choice(["polynomial", "exponential", "grid", "grid", "data", "perfect"])
            sm = .03 if kind == "perfect" else None
            src, cls, args, kw, _, _, _ = source(rng, kind, sm)
            kw["kk_n"] = int(rng.choice([3, 5, 10]))
            # sampling such that either curve may be the worse one
            if rng.random() < .7:
                kw["max_npts_dc"] = int(rng.choice([11, 31, 101, 401]))
                kw["max_npts_kk"] = int(rng.choice([11, 31, 101, 401]))
            kw["spline_order"] = int(rng.choice([1, 2, 3, 3]))
            obj, exc, _ = build(cls, args, kw)
            if exc is not None:
                raise exc
            v = np.asarray(obj.voltage)
            dc, kk = obj.idc(v), obj.ikk(v)
            m = np.abs(v) < 34
            edc, ekk = (obj.current - dc)[m], (obj.current_kk - kk)[m]
            marks = [np.abs(edc).max(), np.abs(ekk).max(), edc.max(), ekk.max(), -edc.min(), -ekk.min()]
            limits = set()
            for x in marks:
                limits |= {x * f for f in (1.0001, .9999)}
            w = max(marks)
            limits |= {w * 2, w * .5, w * 1.05, w * 10, w * .01}
            limits = [x for x in limits if x > 0]
            if len(v) > 10000:
                limits = list(rng.choice(limits, min(len(limits), 9), replace=False)) + [w * 1.0001, w * .9999]
            tries = []
            for x in limits:
                o, e, _ = build(cls, args, dict(kw, check_error=True, max_interp_error=float(x)))
                tries.append({"limit": F(x), "check": True, "ok": e is None})
            for x in (w * .5, w * 1e-6, 0.):
                o, e, _ = build(cls, args, dict(kw, check_error=False, max_interp_error=float(x)))
                tries.append({"limit": F(x), "check": False, "ok": e is None})
            ctx.add({"op": "check", "case": "%s %s" % (cls.__name__, {k: kw[k] for k in kw if k.startswith(("max", "spl"))}),
                     "v": FS(v), "i": FS(obj.current), "kk": FS(obj.current_kk), "idc": FS(dc), "ikk": FS(kk), "tries": tries})
        ctx.guard("check", one)
    for c in ("RespFnPolynomial", "RespFnExponential"):
        def default():
            import qmix.respfn as rf
            cls = getattr(rf, c)
            obj = cls(verbose=False)
            v = np.asarray(obj.voltage)
            dc, kk = obj.idc(v), obj.ikk(v)
            tries = []
            for kw in ({}, {"check_error": True}, {"check_error": True, "max_interp_error": .1}, {"check_error": True, "max_interp_error": 1e-9}):
                _, e, _ = build(cls, [], dict(kw, verbose=False))
                tries.append({"limit": F(kw.get("max_interp_error", 1e-3)), "check": "check_error" in kw, "ok": e is None})
            ctx.add({"op": "check", "case": "defaults " + c, "v": FS(v), "i": FS(obj.current), "kk": FS(obj.current_kk),
                     "idc": FS(dc), "ikk": FS(kk), "tries": tries})
        ctx.guard("default", default)
