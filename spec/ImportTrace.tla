---------------------------- MODULE ImportTrace -----------------------------
(* Judges recorded imports of experimental data (E02-E08).                 *)
EXTENDS Import, Rec, Verdict

TOL == FDec(1, -7)
NearF(x, y, rtol, atol) == (FIsNaN(x) /\ FIsNaN(y)) \/ FClose(x, y, rtol, atol)
NearSeq(s, t, rtol, atol) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : NearF(s[k], t[k], rtol, atol)
Arr(o, n) == o.ok /\ o.kind = "f" /\ o.shape = <<n>>
Num(o) == o.ok /\ o.kind = "f" /\ o.shape = <<>>

(* Outside the measured range the value jumps: a grid point that coincides *)
(* with the end of the range up to rounding may fall on either side.       *)
AtEnd(x, t) == \/ FClose(t, x[1], FDec(1, -9), FDec(1, -13)) \/ FClose(t, x[Len(x)], FDec(1, -9), FDec(1, -13))
ResampledOK(got, x, y, ts, left, right, rtol, atol) ==
    Len(got) = Len(ts) /\ \A k \in 1..Len(ts) :
        \/ NearF(got[k], InterpAt(x, y, ts[k], left, right), rtol, atol)
        \/ /\ AtEnd(x, ts[k])
           /\ \E e \in {left, right, y[1], y[Len(y)]} : NearF(got[k], e, rtol, atol)

---------------------------------------------------------------------------
(* DC I-V curve: r.raw, r.o (options), r.out (what was returned)           *)
(* r.planted: the parameters the curve was made from                       *)

(* the offset a curve is known to have: given by the user, or none at all  *)
Bipolar(c, o) == FLt(FMinSeq(c.v), o.vor[1]) /\ FLt(o.vor[2], FMaxSeq(c.v))
KnownOffset(c, o) == (o.voff.is /\ o.ioff.is) \/ ~Bipolar(c, o)
GivenOr0(x) == IF x.is THEN x.x ELSE F0

GridOf(o, vgap) == Map1(FLinspace(FNeg(o.vmax), o.vmax, o.npts), LAMBDA x : FDiv(x, vgap))
OutFields == {"voltage", "current", "vraw", "iraw", "vnorm", "inorm"}
Scalars == {"vgap", "igap", "fgap", "rn", "rsg", "vint", "voff", "ioff"}

DCIVFails(r) ==
    Clause("inputs-unchanged", r.same) \cup
    (IF ~r.made THEN {"no-exception"}
     ELSE IF \E f \in OutFields : ~(r.out[f].ok /\ r.out[f].kind = "f" /\ Len(r.out[f].shape) = 1) THEN {"arrays"}
     ELSE IF \E f \in Scalars : ~Num(r.out[f]) THEN {"scalars"}
     ELSE
     LET o == r.o
         val(f) == r.out[f].v
         one(f) == r.out[f].v[1]
         c0 == TLCEval(Scale(Load(r.raw, o), o))
         known == KnownOffset(c0, o)
         vo == IF known THEN GivenOr0(o.voff) ELSE one("voff")
         io == IF known THEN GivenOr0(o.ioff) ELSE one("ioff")
         c1 == TLCEval(Shift(c0, vo, io))
         f2 == TLCEval(Filtered(c1, o))
         c3 == TLCEval(Series(f2.c, o))
         nl == FitBetween(c3, o.vrn[1], o.vrn[2])
         sub == FitBetween(c3, FSub(o.vrsg, FDec(1, -4)), FAdd(o.vrsg, FDec(1, -4)))
         grid == GridOf(o, one("vgap"))
         is == FMaxAbs(c3.i)
     IN  Clause("offset-reported-is-the-known-one", NearF(one("voff"), vo, FDec(1, -9), FDec(1, -15))
                                                   /\ NearF(one("ioff"), io, FDec(1, -9), FDec(1, -15)))
         \cup (IF ~f2.ok THEN {} ELSE
            Clause("corrected-voltage", NearSeq(val("vraw"), f2.c.v, TOL, FDec(1, -12)))
            \cup Clause("corrected-current", NearSeq(val("iraw"), f2.c.i, TOL, FMul(FDec(1, -8), is)))
            \cup Clause("normal-resistance", NearF(one("rn"), FDiv(F1, nl[1]), FDec(1, -6), F0))
            \cup Clause("normal-line-intercept", NearF(one("vint"), FNeg(FDiv(nl[2], nl[1])), FDec(1, -6), FDec(1, -9)))
            \cup Clause("subgap-resistance", Len(Between(c3.v, FSub(o.vrsg, FDec(1, -4)), FAdd(o.vrsg, FDec(1, -4)))) < 4 \/ NearF(one("rsg"), FDiv(F1, sub[1]), FDec(1, -6), F0))
            \cup (IF ~Increasing(c3.v) \/ ~FLt(F0, one("vgap")) THEN {} ELSE
                 Clause("normalised-current",
                     ResampledOK(val("current"), Map1(c3.v, LAMBDA x : FDiv(x, one("vgap"))),
                                 Map1(c3.i, LAMBDA x : FDiv(x, one("igap"))), grid,
                                 FDiv(c3.i[1], one("igap")), FDiv(c3.i[Len(c3.i)], one("igap")), TOL,
                                 FMul(FDec(1, -8), FDiv(is, one("igap")))))))
         \cup Clause("grid", NearSeq(val("voltage"), grid, FDec(1, -9), FDec(1, -12)))
         \cup Clause("struct-curve", NearSeq(val("vnorm"), val("voltage"), F0, F0) /\ NearSeq(val("inorm"), val("current"), F0, F0))
         \cup Clause("given-gap-voltage", o.vgap.is => FEq(one("vgap"), o.vgap.x))
         \cup Clause("gap-current", NearF(one("igap"), FDiv(one("vgap"), one("rn")), FDec(1, -9), F0))
         \cup Clause("gap-frequency", NearF(one("fgap"), FDiv(FMul(ECHARGE, one("vgap")), HPLANCK), FDec(1, -6), F0))
         \cup Clause("series-recorded", r.out.rs = o.rs)
         \cup (IF ~r.planted.is THEN {} ELSE
               LET p == r.planted IN
               Clause("planted-offset", NearF(one("voff"), p.voff, F0, p.tolv) /\ NearF(one("ioff"), p.ioff, F0, p.toli))
               \cup Clause("planted-gap-voltage", NearF(one("vgap"), p.vgap, FDec(5, -3), F0))
               \cup Clause("planted-normal-resistance", NearF(one("rn"), p.rn, p.tolrn, F0))
               \cup Clause("planted-subgap-resistance", NearF(one("rsg"), p.rsg, p.tolrsg, F0))
               \cup Clause("planted-intercept", NearF(one("vint"), p.vint, F0, p.tolvint))))

---------------------------------------------------------------------------
(* Two recordings of the same measurement must give the same import        *)
SameFails(r) ==
    IF ~r.a.ok \/ ~r.b.ok THEN {"no-exception"}
    ELSE Clause("same-import", r.a.shape = r.b.shape /\ r.a.kind = "f" /\ r.b.kind = "f"
                               /\ NearSeq(r.a.v, r.b.v, r.rtol, r.atol))

(* A sweep recorded one sample at a time (enumerated by OnePass_MC): the    *)
(* current imported at every voltage is that of a sample of one pass.       *)
SweepFails(r) ==
    IF ~r.made THEN {"no-exception"}
    ELSE IF ~(Arr(r.voltage, Len(r.grid)) /\ Arr(r.current, Len(r.grid))) THEN {"arrays"}
    ELSE LET at(p, x) == {r.raw.i[p[k]] : k \in {j \in 1..Len(p) : FEq(r.raw.v[p[j]], x)}}
             known(p, x) == at(p, x) # {}
         IN  Clause("inputs-unchanged", r.same)
             \cup Clause("grid", NearSeq(r.voltage.v, r.grid, FDec(1, -12), F0))
             \cup Clause("one-pass", \E p \in OP!Passes(r.raw.v) : \A g \in 1..Len(r.grid) :
                    LET x == r.grid[g] IN
                    IF known(p, x) THEN \E i \in at(p, x) : NearF(r.current.v[g], i, FDec(1, -9), F0)
                    ELSE FEq(r.current.v[g], F0))

---------------------------------------------------------------------------
(* Pumped I-V curve against the DC curve's parameters r.dc                 *)
PumpedFails(r) ==
    Clause("inputs-unchanged", r.same) \cup
    (IF ~r.made THEN {"no-exception"}
     ELSE IF ~(Arr(r.voltage, r.o.npts) /\ Arr(r.current, r.o.npts)) THEN {"arrays"}
     ELSE
     LET o == r.o
         given == o.voff.is /\ o.ioff.is
         c0 == TLCEval(Scale(Load(r.raw, o), o))
         c1 == TLCEval(Shift(c0, IF given THEN o.voff.x ELSE r.dc.voff, IF given THEN o.ioff.x ELSE r.dc.ioff))
         f2 == TLCEval(Filtered(c1, o))
         c3 == TLCEval(Series(f2.c, o))
         x == Map1(c3.v, LAMBDA t : FDiv(t, r.dc.vgap))
         y == Map1(c3.i, LAMBDA t : FDiv(t, r.dc.igap))
         grid == GridOf(o, r.dc.vgap)
     IN  Clause("grid", NearSeq(r.voltage.v, grid, FDec(1, -9), FDec(1, -12)))
         \cup (IF ~f2.ok \/ ~Increasing(c3.v) THEN {} ELSE
              Clause("normalised-current",
                     ResampledOK(r.current.v, x, y, grid, F0, F0, TOL, FMul(FDec(1, -8), FMaxAbs(y))))))

(* Watched imports (debug): a figure of the curve after every step, and the *)
(* same results; without it no figures.  DC curves in mV and uA.            *)
StepFails(r) ==
    LET o == r.o
        dc == r.of = "dciv"
        l == TLCEval(Load(r.raw, o))
        given == o.voff.is /\ o.ioff.is
        c1 == TLCEval(Shift(Scale(l, o), IF dc THEN r.voff ELSE IF given THEN o.voff.x ELSE r.dc.voff,
                                         IF dc THEN r.ioff ELSE IF given THEN o.ioff.x ELSE r.dc.ioff))
        f2 == TLCEval(Filtered(c1, o))
        c3 == TLCEval(Series(f2.c, o))
        want == <<l, c1>> \o (IF dc /\ ~o.filter THEN <<>> ELSE <<f2.c>>) \o <<c3>> \o (IF dc /\ ~o.vgap.is THEN <<c3>> ELSE <<>>)
        vs == IF dc THEN FDec(1, 3) ELSE F1
        is == IF dc THEN FDec(1, 6) ELSE F1
        shows(s, c) == /\ Len(s) = 1
                       /\ NearSeq(s[1].v, Map1(c.v, LAMBDA x : FMul(x, vs)), TOL, FMul(FDec(1, -12), vs))
                       /\ NearSeq(s[1].i, Map1(c.i, LAMBDA x : FMul(x, is)), TOL, FMul(FDec(1, -8), FMul(is, FMaxAbs(c.i))))
    IN  IF r.raised THEN {"no-exception"}
        ELSE Clause("no-figures-unasked", r.left = 0)
             \cup Clause("same-result-watched", r.asplain)
             \cup (IF ~f2.ok THEN {} ELSE Clause("every-step-shown",
                     Len(r.steps) = Len(want) /\ \A k \in 1..Len(want) : shows(r.steps[k], want[k])))

(* PumpedData: what it carries over and derives                            *)
Half(n) == (n - 1) \div 2
Chord(x, y, a, b) == FDiv(FSub(y[b], y[a]), FSub(x[b], x[a]))
ChordOK(d, s) == (FIsNaN(d) /\ FIsNaN(s)) \/ FEq(d, s) \/ FClose(d, s, FDec(1, -6), FDec(1, -9))
                 \/ (FEq(s, F0) /\ FEq(d, FDec(1, -10)))
RdynOK(r, n) ==
    LET L == Len(r.voltage.v)
        x == r.current.v
        y == r.voltage.v
    IN  \A j \in 1..Len(r.at) : LET i == r.at[j] IN
          \E a \in {i - Half(n) - 1, i - Half(n)} : \E b \in {i + Half(n), i + Half(n) + 1} :
             b - a \in {n - 1, n} /\ a >= 1 /\ b <= L /\ ChordOK(r.rdyn.v[i], Chord(x, y, a, b))
PumpDataFails(r) ==
    IF ~r.made THEN {"no-exception"}
    ELSE IF ~(r.rdyn.ok /\ r.rdyn.kind = "f" /\ r.rdyn.shape = r.voltage.shape) THEN {"rdyn-shape"}
    ELSE Clause("dynamic-resistance", RdynOK(r, 21))
         \cup Clause("curve-is-the-import", Same(r.voltage, r.want.v) /\ Same(r.current, r.want.i))
         \cup Clause("photon-voltage", Num(r.vph) /\ NearF(r.vph.v[1], FDiv(FMul(r.freq, FDec(1, 9)), r.dc.fgap), FDec(1, -9), F0))
         \cup Clause("carried-over", \A k \in 1..Len(r.carried) : Num(r.carried[k].got) /\ FEq(r.carried[k].got.v[1], r.carried[k].want))

---------------------------------------------------------------------------
(* Quantities DCData derives                                               *)
DCDataFails(r) ==
    LET g == r.got
        x == r.is
    IN  IF ~r.made THEN {"no-exception"}
        ELSE IF \E f \in DOMAIN g : ~Num(g[f]) THEN {"scalars"}
        ELSE LET n(f) == g[f].v[1] IN
             Clause("copies", \A f \in {"vgap", "igap", "fgap", "rn", "rsg", "vint", "voff", "ioff"} : FEq(n(f), x[f]))
             \cup Clause("curve-is-the-import", NearSeq(r.struct.v.v, r.voltage, F0, F0) /\ NearSeq(r.struct.i.v, r.current, F0, F0))
             \cup Clause("quality-factor", NearF(n("q"), FDiv(x.rsg, x.rn), FDec(1, -9), F0))
             \cup Clause("resistance-area", NearF(n("rna"), FMul(FMul(x.rn, r.area), FDec(1, -12)), FDec(1, -9), F0))
             \cup Clause("current-density", NearF(n("jc"), FDiv(x.vgap, FMul(FMul(x.rn, r.area), FDec(1, -12))), FDec(1, -9), F0))
             \cup Clause("leakage", NearF(n("ileak"), FMul(InterpAt(r.voltage, r.current, FDiv(r.vleak, x.vgap),
                                         r.current[1], r.current[Len(r.current)]), x.igap), FDec(1, -7), FDec(1, -14)))
             \cup Clause("response-function", NearSeq(r.resp.idc, Interp(r.voltage, r.current, r.resp.v, F0, F0), F0, r.resp.tol))
             \cup Clause("smeared-response-function", NearSeq(r.smeared.table, r.smeared.want, FDec(1, -9), FDec(1, -9)))

---------------------------------------------------------------------------
(* IF data: r.raw = [v, i = power], r.dc = DC curve, r.o options           *)
LoadIF(raw, o, dc) ==
    LET a == Complete([v |-> Map1(raw.v, LAMBDA x : FMul(x, VUnit(o.vfmt))), i |-> raw.i])
        b == TLCEval(Distinct(Sort(a)))
        c == TLCEval([v |-> Map1(b.v, LAMBDA x : FSub(FMul(x, o.vmul), dc.voff)), i |-> b.i])
        d == IF ~o.rs.is THEN c
             ELSE [v |-> Map1(c.v, LAMBDA x : FSub(x, FMul(o.rs.ohm, InterpAt(dc.vraw, dc.iraw, x, dc.iraw[1], dc.iraw[Len(dc.iraw)])))),
                   i |-> c.i]
        x == Map1(d.v, LAMBDA t : FDiv(t, dc.vgap))
        g == TLCEval(FLinspace(F0, FDiv(o.vmax, dc.vgap), o.ifnpts))
        p == Interp(x, d.i, g, F0, F0)
        step == FMul(FSub(g[2], g[1]), dc.vgap)
        w == IF FLt(FDec(5, -1), o.sigma.x) THEN o.sigma.x ELSE FDiv(o.sigma.x, step)
    IN  [v |-> g, ok |-> Increasing(x), i |-> IF o.sigma.is THEN SmoothSeq(p, Gaussian(w, FI(3))) ELSE p]

(* the shot-noise line of the (uncalibrated) curve and the calibration     *)
Shot(c, o, dc) ==
    LET in(k) == \E j \in 1..Len(o.vshot) : LET V == FMul(c.v[k], dc.vgap) IN FLt(o.vshot[j][1], V) /\ FLt(V, o.vshot[j][2])
        ix == SelectSeq(All(c.v), in)
        use == IF Len(ix) < 5 THEN SelectSeq(All(c.v), LAMBDA k : FLt(F2, c.v[k])) ELSE ix
        l == LineFit(Pick(c.v, use), Pick(c.i, use))
        corr == FMul(YF!Calibration(FDec(58, -1), l[1]), FMul(dc.vgap, FI(1000)))
    IN  [slope |-> l[1], icpt |-> l[2], corr |-> corr,
         noise |-> FMul(corr, FAdd(l[2], FMul(l[1], FDiv(dc.vint, dc.vgap)))),
         line |-> Map1(c.v, LAMBDA x : FMul(corr, FAdd(l[2], FMul(l[1], x))))]
GoodNoise(n) == FLt(F0, n) /\ FLt(n, FI(50))
Flag(o) == o.ok /\ o.kind = "b" /\ o.shape = <<>>

(* what a calibration must say: m is the recorded metadata                 *)
CalFails(m, cal, o, dc, n, rtol) ==
    IF ~(Num(m.noise) /\ Num(m.corr) /\ Flag(m.fit) /\ Num(m.vmax) /\ m.line.ok /\ m.line.kind = "f" /\ m.line.shape = <<n, 2>>)
    THEN {"calibration-shape"}
    ELSE Clause("shot-noise-calibration", NearF(m.corr.v[1], cal.corr, rtol, F0))
         \cup Clause("if-noise", NearF(m.noise.v[1], cal.noise, rtol, FMul(rtol, FI(50))))
         \cup Clause("fit-flag", m.fit.v[1] = GoodNoise(m.noise.v[1]))
         \cup Clause("shot-noise-line", \A k \in 1..n : NearF(m.line.v[2 * k], cal.line[k], rtol, FMul(rtol, FI(50))))
         \cup Clause("shot-noise-line-voltages", LET g == TLCEval(FLinspace(F0, FDiv(o.vmax, dc.vgap), n)) IN
                \A k \in 1..n : NearF(m.line.v[2 * k - 1], g[k], FDec(1, -9), FDec(1, -12)))
         \cup Clause("vmax", NearF(m.vmax.v[1], o.vmax, FDec(1, -9), F0))

DCIFFails(r) ==
    LET n == r.o.ifnpts IN
    Clause("inputs-unchanged", r.same) \cup
    (IF ~r.made THEN {"no-exception"}
     ELSE IF ~(r.data.ok /\ r.data.kind = "f" /\ r.data.shape = <<n, 2>>) THEN {"data-shape"}
     ELSE LET c == TLCEval(LoadIF(r.raw, r.o, r.dc))
              planted == r.planted.is
              cal == TLCEval(IF planted THEN LET p == r.planted
                                                 corr == FMul(FDiv(FDec(58, -1), p.slope), FMul(r.dc.vgap, FI(1000))) IN
                        [corr |-> corr, noise |-> FMul(corr, FAdd(p.icpt, FMul(p.slope, FDiv(r.dc.vint, r.dc.vgap)))),
                         line |-> Map1(c.v, LAMBDA x : FMul(corr, FAdd(p.icpt, FMul(p.slope, x))))]
                     ELSE Shot(c, r.o, r.dc))
              rtol == IF planted THEN FDec(2, -3) ELSE TOL
          IN  IF ~c.ok THEN {} ELSE CalFails(r.meta, cal, r.o, r.dc, n, rtol)
              \cup Clause("voltage-grid", \A k \in 1..n : NearF(r.data.v[2 * k - 1], c.v[k], FDec(1, -9), FDec(1, -12)))
              \cup Clause("calibrated-power", \A k \in 1..n :
                     NearF(r.data.v[2 * k], FMul(r.meta.corr.v[1], c.i[k]), TOL, FMul(FAbs(r.meta.corr.v[1]), FMul(FDec(1, -8), FMaxAbs(c.i)))))
              \cup (IF planted THEN {} ELSE
                   Clause("rises-5.8-K-per-mV", LET s == FMul(FDiv(FSub(r.meta.line.v[2 * n], r.meta.line.v[2]), FSub(c.v[n], c.v[1])), F1)
                                                IN NearF(FDiv(s, FMul(r.dc.vgap, FI(1000))), FDec(58, -1), FDec(1, -6), F0))))

(* hot and cold IF curves: results table of voltage, hot, cold, tn, gain   *)
Col(t, n, k, c) == t.v[5 * (k - 1) + c]
CallenWelton(f, T) == LET h == FDiv(FMul(HPLANCK, f), FMul(F2, KBOLTZ)) IN FDiv(h, FTanh(FDiv(h, T)))
HotColdFails(r) ==
    LET n == r.o.ifnpts IN
    Clause("inputs-unchanged", r.same) \cup
    (IF r.mustraise THEN Clause("unknown-criterion-rejected", ~r.made)
     ELSE IF ~r.made THEN {"no-exception"}
     ELSE IF ~(r.res.ok /\ r.res.kind = "f" /\ r.res.shape = <<n, 5>> /\ r.best >= 0 /\ r.best < n) THEN {"results-shape"}
     ELSE LET hot == TLCEval(LoadIF(r.hot, r.o, r.dc))
              cold == TLCEval(LoadIF(r.cold, r.o, r.dc))
              mean == TLCEval([v |-> hot.v, i |-> Map2(hot.i, cold.i, LAMBDA a, b : FDiv(FAdd(a, b), F2))])
              corr == r.meta.corr.v[1]
              big == FMul(FAbs(corr), FMul(FDec(1, -8), FMax(FMaxAbs(hot.i), FMaxAbs(cold.i))))
              col(c) == TLCEval([k \in 1..n |-> Col(r.res, n, k, c)])
              v == col(1) ph == col(2) pc == col(3) tn == col(4) gain == col(5)
              th == CallenWelton(FMul(r.freq, FDec(1, 9)), r.thot)
              tc == CallenWelton(FMul(r.freq, FDec(1, 9)), r.tcold)
              y(k) == LET q == YF!Ratio(ph[k], pc[k]) IN IF FLe(q, FAdd(F1, FDec(1, -10))) THEN FAdd(F1, FDec(1, -10)) ELSE q
              tnAt(k) == YF!Noise(th, tc, y(k))
              b == r.best + 1
          IN  IF ~(hot.ok /\ cold.ok) THEN {} ELSE (IF r.dcif.is
               THEN Clause("supplied-calibration-used", Num(r.meta.corr) /\ FEq(corr, r.dcif.corr) /\ Num(r.meta.noise) /\ FEq(r.meta.noise.v[1], r.dcif.noise)
                              /\ r.meta.fit = r.dcif.fit /\ r.meta.line = r.dcif.line)
               ELSE CalFails(r.meta, TLCEval(Shot(mean, r.o, r.dc)), r.o, r.dc, n, TOL))
              \cup Clause("voltage-grid", NearSeq(v, hot.v, FDec(1, -9), FDec(1, -12)))
              \cup Clause("hot-power", NearSeq(ph, Map1(hot.i, LAMBDA t : FMul(corr, t)), TOL, big))
              \cup Clause("cold-power", NearSeq(pc, Map1(cold.i, LAMBDA t : FMul(corr, t)), TOL, big))
              \cup Clause("noise-temperature", \A k \in 1..n :
                     \/ NearF(tn[k], tnAt(k), FDec(1, -6), FDec(1, -6))
                     \* no cold power at all: undefined, or the limit of the formula
                     \/ ~FIsFinite(YF!Ratio(ph[k], pc[k])) /\ NearF(tn[k], FNeg(tc), FDec(1, -6), FDec(1, -6)))
              \cup Clause("gain", \A k \in 1..n : NearF(gain[k], YF!Gain(ph[k], pc[k], th, tc), FDec(1, -7), FDec(1, -12)))
              \cup (CASE r.pick = "vbest" -> Clause("best-nearest-voltage", \A k \in 1..n :
                             FLe(FAbs(FSub(FMul(v[b], r.dc.vgap), r.vbest)), FAdd(FAbs(FSub(FMul(v[k], r.dc.vgap), r.vbest)), FDec(1, -12))))
                      [] r.pick = "gain" -> Clause("best-max-gain", YF!IsBest(gain, b, LAMBDA p, q : FLt(q, p)))
                      [] r.pick = "tn" -> Clause("best-min-noise", ~FIsNaN(tn[b]) /\ YF!IsBest(tn, b, FLt))))

(* PumpedData's best values *)
BestFails(r) ==
    IF ~r.made THEN {"no-exception"}
    ELSE LET b == r.best + 1
             col(c) == [k \in 1..r.n |-> Col(r.res, r.n, k, c)]
             g(f) == r.got[f]
             num(f, want) == Num(g(f)) /\ NearF(g(f).v[1], want, FDec(1, -9), FDec(1, -12))
             vb == Col(r.res, r.n, b, 1)
             near == OP!Best(LAMBDA i, j : FLt(FAbs(FSub(r.voltage[i], vb)), FAbs(FSub(r.voltage[j], vb))), 1, 2, Len(r.voltage))
             ix == [k \in 1..10 |-> near + k - 1]
             l == LineFit(Pick(r.voltage, ix), Pick(r.current, ix))
         IN  Clause("index", r.gotbest = r.best)
             \cup Clause("arrays", NearSeq(r.tn.v, col(4), F0, F0) /\ NearSeq(r.gain.v, col(5), F0, F0))
             \cup Clause("powers", OKArr(r.powers.hot, "f", <<r.n, 2>>) /\ OKArr(r.powers.cold, "f", <<r.n, 2>>)
                    /\ \A k \in 1..r.n : /\ FEq(r.powers.hot.v[2 * k - 1], Col(r.res, r.n, k, 1)) /\ FEq(r.powers.hot.v[2 * k], Col(r.res, r.n, k, 2))
                                         /\ FEq(r.powers.cold.v[2 * k - 1], Col(r.res, r.n, k, 1)) /\ FEq(r.powers.cold.v[2 * k], Col(r.res, r.n, k, 3)))
             \cup Clause("calibration", \A k \in 1..Len(r.meta) : Same(r.meta[k].got, r.meta[k].want))
             \cup Clause("best-noise", num("tn_best", Col(r.res, r.n, b, 4)))
             \cup Clause("best-gain", num("gain_best", Col(r.res, r.n, b, 5)))
             \cup Clause("best-gain-db", Num(g("g_db")) /\ NearF(FPow(FI(10), FDiv(g("g_db").v[1], FI(10))), Col(r.res, r.n, b, 5), FDec(1, -9), F0))
             \cup Clause("best-voltage", num("v_best", vb))
             \cup Clause("output-impedance", Num(g("zj_if")) /\ NearF(g("zj_if").v[1], FDiv(r.rn, l[1]), FDec(1, -5), F0))

(* what is analysed: IF data from both loads unless told not to, recovery
   unless told not to; everything else is the same in every trial *)
PartsFails(r) ==
    LET base == r.trials[1]
        ifs(t) == t.hot /\ t.cold /\ t.aif
        full == {k \in 1..Len(r.trials) : ifs(r.trials[k])}
        all(q, b) == \A k \in 1..Len(q) : q[k] = b
        same(p, q) == \A k \in 1..Len(p) : Same(p[k], q[k])
    IN  IF \E k \in 1..Len(r.trials) : ~r.trials[k].made THEN {"no-exception"}
        ELSE Clause("if-results", \A k \in 1..Len(r.trials) : all(r.trials[k].ifs, ifs(r.trials[k])))
             \cup Clause("recovery", \A k \in 1..Len(r.trials) : all(r.trials[k].ivs, r.trials[k].aiv))
             \cup Clause("same-iv", \A k \in 1..Len(r.trials) : same(r.trials[k].iv, base.iv))
             \cup Clause("same-if", \A k, l \in full : same(r.trials[k]["if"], r.trials[l]["if"]))

---------------------------------------------------------------------------
(* E08: IF response.  r.f, r.hot, r.cold in the order they were given      *)
DbLin(d) == FPow(FI(10), FDiv(d, FI(10)))
RespFails(r) ==
    LET n == Len(r.f)
        cell(row, k) == r.out.v[(row - 1) * n + k]
        y(k) == YF!Ratio(DbLin(r.hot[k]), DbLin(r.cold[k]))
        tn(k) == YF!Noise(r.thot, r.tcold, y(k))
        usable(k) == FLt(F1, y(k)) /\ FLe(F0, tn(k)) /\ FLe(tn(k), r.maxtn)
        (* so close to a limit that rounding decides *)
        edge(k) == FClose(y(k), F1, FDec(1, -12), F0) \/ FClose(tn(k), r.maxtn, FDec(1, -9), F0) \/ FClose(tn(k), F0, F0, FDec(1, -9))
    IN  Clause("inputs-unchanged", r.same) \cup
        (IF ~(r.out.ok /\ r.out.kind = "f" /\ r.out.shape = <<4, n>>) THEN {"shape"}
         ELSE Clause("frequency", \A k \in 1..n : FEq(cell(1, k), r.f[k]))
              \cup Clause("powers", \A k \in 1..n : FEq(cell(3, k), r.hot[k]) /\ FEq(cell(4, k), r.cold[k]))
              \cup Clause("y-factor-noise", \A k \in 1..n : usable(k) /\ ~edge(k) =>
                     FClose(cell(2, k), tn(k), FDiv(FDec(1, -12), FSub(y(k), F1)), FAdd(FDec(1, -9), FDiv(FDec(1, -12), FSub(y(k), F1)))))
              \cup Clause("equal-powers", \A k \in 1..n : FEq(r.hot[k], r.cold[k]) /\ FLt(r.maxtn, FDec(1, 7)) => FEq(cell(2, k), r.maxtn))
              \cup Clause("unusable-is-maximum", \A k \in 1..n : ~usable(k) /\ ~edge(k) => FEq(cell(2, k), r.maxtn))
              \cup Clause("within-limits", \A k \in 1..n : FLe(F0, cell(2, k)) /\ FLe(cell(2, k), r.maxtn)))

ITFails(r) ==
    CASE r.op = "dciv" -> DCIVFails(r)
      [] r.op = "same" -> SameFails(r)
      [] r.op = "sweep" -> SweepFails(r)
      [] r.op = "pumped" -> PumpedFails(r)
      [] r.op = "pumpdata" -> PumpDataFails(r)
      [] r.op = "dcdata" -> DCDataFails(r)
      [] r.op = "dcif" -> DCIFFails(r)
      [] r.op = "hotcold" -> HotColdFails(r)
      [] r.op = "best" -> BestFails(r)
      [] r.op = "steps" -> StepFails(r)
      [] r.op = "parts" -> PartsFails(r)
      [] r.op = "ifresp" -> RespFails(r)
      [] r.op = "rejected" -> Clause("rejected", Raised(r.out))
      [] OTHER -> {"unknown-op"}
=============================================================================
