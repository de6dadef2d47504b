"""Tunnelling currents: generators for Q01-Q06."""
import itertools
import numpy as np
from common import FS, CS, CN, F, C, FN, project, call, call_raw, quiet
from qtlib import Setup, Trig, Ohm, Table, drive, pick_freqs, some_products, bias, UNIT, key4, safe_freqs

_resp_cache = {}


def real_resp(kind):
    if kind not in _resp_cache:
        from qmix.respfn import RespFnPolynomial, RespFnPerfect, RespFnExponential
        with quiet():
            _resp_cache[kind] = {"poly": lambda: RespFnPolynomial(50, verbose=False),
                                 "perfect": lambda: RespFnPerfect(verbose=False),
                                 "exp": lambda: RespFnExponential(verbose=False)}[kind]()
    return Table(_resp_cache[kind])


def pick_resp(rng):
    x = rng.random()
    if x < 0.7:
        return Trig(rng)
    if x < 0.8:
        return Ohm()
    return real_resp(["poly", "perfect", "exp"][rng.integers(3)])


# (nf, np, max limit per tone) small enough for TLC
SHAPES = [(1, 1, 12), (1, 2, 12), (1, 3, 9), (1, 4, 8), (2, 1, 6), (2, 2, 6), (2, 3, 4),
          (3, 1, 3), (3, 2, 3), (4, 1, 2), (4, 2, 2)]


def limits(rng, nf, top):
    mode = rng.integers(4)
    if mode == 0:
        return int(rng.integers(1, top + 1))
    nb = [int(x) for x in rng.integers(1, top + 1, nf)]
    if mode == 1:
        nb = nb + [int(rng.integers(1, max(nb) + 1))]      # longer than the number of tones
    return tuple(nb)


def q01(ctx):
    rng = ctx.rng()
    reps = ctx.n(14, 100)
    for rep in range(reps):
        for nf, np_, top in SHAPES:
            def one():
                npts = int(rng.integers(1, 4)) if nf < 4 else 1
                f = pick_freqs(rng, nf, np_, fine=rng.random() < 0.5, close=rng.random() < 0.15)
                nb = limits(rng, nf, top if not (nf == 4 and np_ > 1) else 2)
                u = Setup(f, np_, bias(rng, npts), drive(rng, nf, np_, npts, amp=rng.choice([0.1, 0.4, 1.2])),
                          pick_resp(rng), nb)
                req = [0] + [p * x for x in f for p in range(1, np_ + 1)]
                req = [req[i] for i in rng.permutation(len(req))][:4]
                req += some_products(rng, f, np_, ctx.n(2, 6) if nf < 3 else ctx.n(4, 8))
                ctx.add({"op": "cur", "u": u.rec(), "req": req, "out": u.current(req)})
            ctx.guard("q01 %d tones %d harmonics" % (nf, np_), one)
    # long sums: limits beyond the default of 15, strong drives
    for rep in range(ctx.n(6, 40)):
        for nf, np_, lo_, top in [(1, 1, 16, 40), (1, 2, 16, 30), (2, 1, 8, 12)]:
            def long():
                npts = int(rng.integers(1, 3))
                f = pick_freqs(rng, nf, np_, fine=rng.random() < 0.5)
                nb = tuple(int(x) for x in rng.integers(lo_, top + 1, nf))
                u = Setup(f, np_, bias(rng, npts), drive(rng, nf, np_, npts, amp=rng.choice([0.4, 1.5, 4.])),
                          pick_resp(rng), nb if nf > 1 or rng.random() < .5 else nb[0])
                req = [0] + [p * x for x in f for p in range(1, np_ + 1)][:3]
                ctx.add({"op": "cur", "u": u.rec(), "req": req, "out": u.current(req)})
            ctx.guard("q01 long sums", long)
    # the usual operating regime: one LO plus weak signals, real response, default-size limits
    for rep in range(ctx.n(5, 30)):
        def lo():
            f = pick_freqs(rng, 1, 1)
            u = Setup(f, 1, np.linspace(0, 2, 9), np.full((1, 1, 9), 0.5 * f[0] / UNIT * np.exp(1j * rng.uniform(0, 6))),
                      real_resp("exp"), 15)
            ctx.add({"op": "cur", "u": u.rec(), "req": [0, f[0]], "out": u.current([0, f[0]])})
        ctx.guard("q01 default limits", lo)


def q02(ctx):
    from qmix.qtcurrent import calculate_phase_factor_coeff
    rng = ctx.rng()
    for rep in range(ctx.n(50, 400)):
        for nf, np_ in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 2), (4, 1), (1, 5), (2, 4)]:
            def one():
                npts = int(rng.integers(1, 4))
                top = 12 if nf < 3 else 6
                long = nf == 1 and rng.random() < 0.3       # many terms, strongly driven
                if long:
                    top = 40
                if rng.random() < 0.4:
                    num_b = int(rng.integers(1, top + 1))
                else:
                    num_b = tuple(int(x) for x in rng.integers(1, top + 1, nf))
                nb = [num_b] * nf if isinstance(num_b, int) else list(num_b)
                f = pick_freqs(rng, nf, 1, fine=True)
                amp = rng.choice([0.4, 1.5, 4.] if long else [0.05, 0.4, 1.5])
                vjs = drive(rng, nf, np_, npts, amp=amp, holes=0.3)
                vj = np.zeros((nf + 1, np_ + 1, npts), dtype=complex)
                vj[1:, 1:] = vjs
                freq = np.zeros(nf + 1)
                freq[1:] = np.array(f) / UNIT
                before = project(vj)
                out = call(calculate_phase_factor_coeff, vj, freq, nf, np_, num_b)
                ctx.add({"op": "pf", "u": {"nf": nf, "np": np_, "npts": npts, "nb": nb, "nmax": max(nb),
                                           "f": f, "vj": CN(vjs)},
                         "out": out, "before": before, "after": project(vj)})
            ctx.guard("q02", one)


def q03(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(12, 80)):
        for n, nf, np_ in [(1, 2, 1), (1, 3, 2), (1, 4, 1), (2, 2, 2), (2, 3, 1), (2, 4, 1), (3, 3, 1),
                           (3, 4, 1), (4, 4, 1), (1, 1, 2), (2, 2, 1), (3, 3, 2)]:
            def one():
                np1 = int(rng.integers(1, np_ + 1))
                npts = int(rng.integers(1, 4))
                fall = pick_freqs(rng, nf, np_, distinct=nf < 4 or np_ == 1)
                top = {1: 8, 2: 5, 3: 3, 4: 2}[nf]
                if max(nf, n) == 4:
                    top = 2
                nball = [int(x) for x in rng.integers(1, top + 1, nf)]
                slots = [int(x) for x in rng.permutation(nf)[:n]]       # tone t of u1 goes to slot slots[t]
                vb = bias(rng, npts)
                resp = pick_resp(rng)
                v1 = drive(rng, n, np1, npts, holes=0)
                # every slot's limit is the same in both descriptions when a tone has harmonics, since the
                # common array size is part of the truncation
                if np1 > 1:
                    m = max(nball)
                    nball = [m] * nf
                u1 = Setup([fall[s] for s in slots], np1, vb, v1, resp, tuple(nball[s] for s in slots))
                v2 = np.zeros((nf, np_, npts), dtype=complex)
                for t, s in enumerate(slots):
                    v2[s, :np1] = v1[t]
                u2 = Setup(fall, np_, vb, v2, resp, tuple(nball))
                req = [0] + [p * x for x in u1.f for p in range(1, np1 + 1)]
                if n > 1:
                    req += some_products(rng, u1.f, np1, 3)
                ctx.add({"op": "relabel", "u1": u1.rec(), "u2": u2.rec(), "slots": [s + 1 for s in slots],
                         "req": req, "out1": u1.current(req), "out2": u2.current(req)})
            ctx.guard("q03 relabel", one)
        for nf in (1, 2, 3):
            def second():
                # tone 1 excited only at harmonic h == a tone of h times the frequency
                npts = 2
                h = int(rng.choice({1: [2, 2, 3, 4, 5], 2: [2, 2, 3], 3: [2]}[nf]))
                while True:
                    f = pick_freqs(rng, nf, h, distinct=True)
                    if nf == 1 or key4(h * f[0]) not in [key4(x) for x in f[1:]]:
                        break
                top = {1: 4, 2: 3 if h == 2 else 2, 3: 1}[nf]
                nb2 = [int(x) for x in rng.integers(1, top + 1, nf)]
                vb = bias(rng, npts)
                resp = pick_resp(rng)
                v2 = drive(rng, nf, 1, npts, holes=0)
                v1 = np.zeros((nf, h, npts), dtype=complex)
                v1[0, h - 1] = v2[0, 0]
                v1[1:, 0] = v2[1:, 0]
                nb1 = [h * nb2[0]] + nb2[1:]
                u1 = Setup(f, h, vb, v1, resp, tuple(nb1))
                u2 = Setup([h * f[0]] + f[1:], 1, vb, v2, resp, tuple(nb2))
                req = [0] + [h * f[0]] + f[1:]
                ctx.add({"op": "second", "h": h, "u1": u1.rec(), "u2": u2.rec(), "req": req,
                         "out1": u1.current(req), "out2": u2.current(req)})
            ctx.guard("q03 second harmonic", second)


def q04(ctx):
    rng = ctx.rng()
    for rep in range(ctx.n(30, 200)):
        for nf, np_, top in [(1, 1, 8), (1, 3, 8), (2, 1, 5), (2, 2, 5), (3, 1, 3), (3, 2, 3), (4, 1, 2)]:
            def one():
                npts = int(rng.integers(1, 6))
                f = pick_freqs(rng, nf, np_, distinct=True)
                nb = tuple(int(x) for x in rng.integers(1, top + 1, nf))
                resp, vb = pick_resp(rng), bias(rng, npts)
                v = drive(rng, nf, np_, npts)
                theta = rng.uniform(-np.pi, np.pi, nf)
                rot = v * np.exp(1j * theta[:, None, None] * np.arange(1, np_ + 1)[None, :, None])
                u1, u2 = Setup(f, np_, vb, v, resp, nb), Setup(f, np_, vb, rot, resp, nb)
                a = [[0] * nf] + [[int(x) for x in rng.integers(-np_, np_ + 1, nf)] for _ in range(5)]
                a += [[p if i == t else 0 for i in range(nf)] for t in range(nf) for p in range(1, np_ + 1)]
                req = [sum(x * y for x, y in zip(b, f)) for b in a]
                ctx.add({"op": "phase", "u": {"nf": nf, "np": np_, "npts": npts, "f": f},
                         "orders": a, "theta": FS(theta), "req": req,
                         "out": u1.current(req), "rot": u2.current(req),
                         "neg": u1.current([-q for q in req])})
            ctx.guard("q04", one)


def q05(ctx):
    from qmix.qtcurrent import interpolate_respfn
    rng = ctx.rng()
    for rep in range(ctx.n(14, 100)):
        for nf, np_, top in [(1, 1, 8), (1, 2, 8), (2, 1, 5), (2, 2, 4), (3, 1, 3), (4, 1, 2), (3, 2, 2)]:
            def sweep():
                npts = int(rng.choice([2, 3, 5, 8, 17, 40, 101]))
                if nf * np_ <= 2 and rep % 5 == 4:
                    npts = int(rng.choice([201, 401, 601]))
                f = pick_freqs(rng, nf, np_)
                nb = limits(rng, nf, top)
                resp, vb = pick_resp(rng), bias(rng, npts)
                v = drive(rng, nf, np_, npts)
                req = [0] + some_products(rng, f, np_, 2)
                full = Setup(f, np_, vb, v, resp, nb)
                pieces = []
                perm = rng.permutation(npts)
                cut = int(rng.integers(1, npts))
                for idx in (list(range(cut)), list(range(cut, npts)), [int(x) for x in perm[:5]], [npts - 1 - i for i in range(npts)]):
                    s = Setup(f, np_, vb[idx], v[:, :, idx], resp, nb)
                    pieces.append({"idx": [i + 1 for i in idx], "out": s.current(req)})
                ctx.add({"op": "sweep", "npts": npts, "nreq": len(req), "full": full.current(req), "pieces": pieces})
            ctx.guard("q05 sweep", sweep)

            def matrix():
                npts = int(rng.integers(1, 4))
                f = pick_freqs(rng, nf, np_, fine=True)
                nb = limits(rng, nf, top if nf < 3 else min(top, 2))
                resp, vb = pick_resp(rng), bias(rng, npts)
                u = Setup(f, np_, vb, drive(rng, nf, np_, npts), resp, nb)
                req = [0] + some_products(rng, f, np_, 2)
                plain = u.current(req)
                rm, e = call_raw(interpolate_respfn, u.cct, resp, nb)
                if e is not None:
                    raise e
                rmp = project(rm)
                ctx.add({"op": "matrix", "u": u.rec(), "rm": rmp, "req": req, "plain": plain,
                         "given": u.current(req, resp_matrix=rm), "rm_after": project(rm)})
            ctx.guard("q05 matrix", matrix)


def q06(ctx):
    from qmix.qtcurrent import qtcurrent, interpolate_respfn
    from qmix.circuit import EmbeddingCircuit
    rng = ctx.rng()

    def state(u):
        c = u.cct
        return [project(x) for x in (u.vj, c.freq, c.vt, c.zt, c.vb, np.array([c.num_f, c.num_p, c.num_n, c.vb_npts]))]

    for rep in range(ctx.n(20, 150)):
        for nf, np_, top in [(1, 1, 6), (1, 3, 6), (2, 1, 4), (2, 2, 4), (3, 1, 2), (3, 2, 2), (4, 1, 1)]:
            def one(form):
                npts = int(rng.integers(1, 4))
                coincide = nf >= 2 and rng.random() < 0.5
                while True:
                    f = pick_freqs(rng, nf, np_, fine=not coincide and rng.random() < 0.3,
                                   close=not coincide and rng.random() < 0.2)
                    if coincide and nf >= 3:
                        f[2] = f[0] + f[1]          # coincident AC products ...
                    elif coincide and np_ >= 2:
                        f[1] = 2 * f[0]
                    if all(100000 < x < 30000000 for x in f):
                        break
                nb = tuple(int(x) for x in rng.integers(1, top + 1, nf))
                u = Setup(f, np_, bias(rng, npts), drive(rng, nf, np_, npts, holes=0), pick_resp(rng), nb)
                req = [p * x for x in f for p in range(1, np_ + 1)]
                if not coincide:
                    req += [0]
                req += [q for q in some_products(rng, f, np_, 4) if q or not coincide]
                req += [int(rng.integers(1, 30000)) * 1000 for _ in range(2)]      # mostly non-mixing
                req += [q + int(d) for q, d in zip(req[:2], rng.integers(-300, 300, 2))]  # same at four decimals
                req += [-req[0]]
                req = [q + 40 if abs(q % 1000 - 500) <= 20 else q for q in req]    # never on a rounding tie
                many = nf * np_ == 1 and rep % 4 == 3
                req = [req[i] for i in rng.integers(0, len(req), 70 if many else len(req) + 2)]    # order + duplicates
                vals = [q / UNIT for q in req]
                arg = {"list": list, "tuple": tuple, "array": np.array}[form](vals)
                if rng.random() < .25:     # in single precision
                    arg = np.array(vals, dtype=np.float32)
                    arg = arg if form == "array" else list(arg) if form == "list" else tuple(arg)
                before, b_arg = state(u), project(np.array(arg))
                rm = None
                kw = {}
                if rng.random() < 0.5:
                    rm = call_raw(interpolate_respfn, u.cct, u.resp, nb)[0]
                    if rm is not None:
                        kw = {"resp_matrix": rm}
                b_rm = project(rm)
                out = call(qtcurrent, u.vj, u.cct, u.resp, arg, nb, verbose=bool(rng.random() < 0.3), **kw)
                ctx.add({"op": "request", "form": form, "u": u.rec(), "req": req, "out": out,
                         "before": before + [b_arg, b_rm], "after": state(u) + [project(np.array(arg)), project(rm)]})
            for form in ("list", "tuple", "array"):
                ctx.guard("q06 " + form, one, form)

            def scalar():
                npts = int(rng.integers(1, 4))
                f = pick_freqs(rng, nf, np_, close=rng.random() < 0.5)
                nb = tuple(int(x) for x in rng.integers(1, top + 1, nf))
                u = Setup(f, np_, bias(rng, npts), drive(rng, nf, np_, npts, holes=0), pick_resp(rng), nb)
                for q, mk in ((f[-1] - f[-2] if nf > 1 else -f[0], float), (0, int), (0, float), (f[0], float), (f[-1], np.float64), (f[-1] if abs(f[-1] % 1000 - 500) > 20 else 0, np.float32), (f[0] + 12345000, float), (0, np.float64)):
                    out = call(qtcurrent, u.vj, u.cct, u.resp, mk(q / UNIT), nb, verbose=False)
                    ctx.add({"op": "scalar", "u": u.rec(), "req": [q], "out": out})
            ctx.guard("q06 scalar", scalar)

            def reject():
                npts = 2
                f = pick_freqs(rng, nf, np_)
                for what in ("zero", "negative", "limits"):
                    u = Setup(f, np_, bias(rng, npts), drive(rng, nf, np_, npts, holes=0), Trig(rng), tuple([2] * nf))
                    nb = tuple([2] * nf)
                    t = int(rng.integers(1, nf + 1))
                    if what == "zero":
                        u.cct.freq[t] = 0.
                    elif what == "negative":
                        u.cct.freq[t] *= -1
                    else:
                        nb = nb[:-1]
                        if nf == 1:
                            continue
                    before = state(u)
                    out = call(qtcurrent, u.vj, u.cct, u.resp, [0., f[0] / UNIT], nb, verbose=False)
                    ctx.add({"op": "reject", "what": what, "out": out, "before": before, "after": state(u)})
            ctx.guard("q06 reject", reject)
