---------------------------- MODULE FiguresTrace ----------------------------
(***************************************************************************)
(* Judges recorded plotting calls (V01) and reports (V02).                 *)
(***************************************************************************)
EXTENDS Figures, Plotting, Rec, Verdict

Words(s) == {s[k] : k \in 1..Len(s)}
States(nums, x) == \E k \in 1..Len(nums) : nums[k].d >= 1 /\ FLe(FAbs(FSub(nums[k].x, x)), nums[k].half)

Lines(fig) == UNION {{<<a, k>> : k \in 1..Len(fig.axes[a].lines)} : a \in 1..Len(fig.axes)}
LineAt(fig, q) == fig.axes[q[1]].lines[q[2]]
(* not-a-number and infinity stand for "undefined" *)
Undefined == FDec(1, 99)
Fin(s) == Map1(s, LAMBDA x : IF FIsFinite(x) THEN x ELSE Undefined)
Mag(s) == FMul(FDec(1, -8), FMaxAbs(Map1(s, LAMBDA x : IF FIsFinite(x) THEN x ELSE F0)))
SameCurve(l, c) ==
    /\ Len(l.x) = Len(c.x) /\ Len(l.y) = Len(c.y) /\ Len(c.x) > 0
    /\ FFirstFar(l.x, c.x, FDec(1, -7), Mag(c.x)) = 0
    /\ c.free \/ FFirstFar(Fin(l.y), Fin(c.y), FDec(1, -7), Mag(c.y)) = 0
(* a vertical line is two points that differ in height *)
IsLine(l, c) == SameCurve(l, c) /\ (c.free => ~FEq(l.y[1], l.y[2]))
Labelled(l, c) == c.words \subseteq Words(l.words) /\ \A k \in 1..Len(c.nums) : States(l.nums, c.nums[k])
Drawn(fig, c) == \E q \in Lines(fig) : IsLine(LineAt(fig, q), c) /\ Labelled(LineAt(fig, q), c)
ShownCurve(fig, c) == \E q \in Lines(fig) : IsLine(LineAt(fig, q), c)
CurveFails(fig, cs) ==
    Clause("curves", \A c \in cs : Len(c.x) = 0 \/ ShownCurve(fig, c))
    \cup Clause("labels", \A c \in cs : Len(c.x) = 0 \/ ~ShownCurve(fig, c) \/ Drawn(fig, c))
AllTexts(fig) == UNION {{fig.axes[a].texts[k] : k \in 1..Len(fig.axes[a].texts)} : a \in 1..Len(fig.axes)}
TextStates(fig, x) == \E n \in AllTexts(fig) : n.d >= 1 /\ FLe(FAbs(FSub(n.x, x)), n.half)
TextFails(fig, xs) == Clause("stated-values", \A x \in xs : TextStates(fig, x))
(* what a note says it says about a point: the arrow starts there *)
NoteAt(fig, x, y, vals) ==
    \E a \in 1..Len(fig.axes) : \E k \in 1..Len(fig.axes[a].notes) :
        LET n == fig.axes[a].notes[k] IN
        FClose(n.x, x, FDec(1, -7), FDec(1, -9)) /\ FClose(n.y, y, FDec(1, -7), FDec(1, -9)) /\ \A v \in vals : States(n.nums, v)

WithLines(fig) == {a \in 1..Len(fig.axes) : Len(fig.axes[a].lines) > 0}
XLim(fig, lo, hi) == \E a \in WithLines(fig) : FClose(fig.axes[a].xlim[1], lo, F0, FDec(1, -9)) /\ FClose(fig.axes[a].xlim[2], hi, FDec(1, -9), F0)
(* the nearest recorded bias to vmax *)
NearestTo(s, x) == CHOOSE k \in 1..Len(s) : \A l \in 1..Len(s) : FLe(FAbs(FSub(s[k], x)), FAbs(FSub(s[l], x)))

Expected(r) ==
    CASE r.kind = "dciv" -> DCIV(r.d)
      [] r.kind = "offset" -> Offset(r.d)
      [] r.kind = "if_noise" -> IFNoise(r.d)
      [] r.kind = "iv" -> IV(r.d, r.p)
      [] r.kind = "if" -> IFs(r.d, r.p)
      [] r.kind = "ivif" -> IVIF(r.d, r.p)
      [] r.kind = "noise_temp" -> NoiseTemp(r.d, r.p)
      [] r.kind = "yfac" -> YFactor(r.d, r.p)
      [] r.kind = "gain_tn" -> GainTn(r.d, r.p)
      [] r.kind = "gain" -> Gain(r.d, r.p)
      [] r.kind = "err_surf" -> {}
      [] r.kind = "simulated" -> Simulated(r.d, r.p)
      [] r.kind = "resp" -> {Curve(r.r.v, r.r.i), Curve(r.r.kv, r.r.ki)}
      [] r.kind \in {"resp_interp", "resp_current"} -> {Curve(r.r.v, r.r.i), Curve(r.r.kv, r.r.ki), Curve(r.r.v, r.r.idc), Curve(r.r.kv, r.r.ikk)}
      [] OTHER -> {}

Surface(r) ==
    LET c == r.figure.cells
        z == r.p.z
        ohm(x) == FMul(x, r.d.rn)
    IN  Clause("error-surface", Len(c) = Len(r.probe) /\ Len(c) > 0 /\ \A k \in 1..Len(c) :
            LET q == r.probe[k] IN
            /\ FClose(c[k][1], CellRe(r.d, r.p, q.a), FDec(1, -6), FMul(r.d.rn, FDec(1, -6)))
            /\ FClose(c[k][2], CellIm(r.d, r.p, q.b), FDec(1, -6), FMul(r.d.rn, FDec(1, -6)))
            /\ FClose(c[k][3], Log10(q.err), FDec(1, -8), FDec(1, -8)))
        \cup Clause("stated-values", NoteAt(r.figure, ohm(z.re), ohm(z.im), {ohm(z.re), ohm(z.im)}))

Special(r) ==
    CASE r.kind = "err_surf" -> Surface(r)
      [] r.kind \in {"iv", "if"} -> TextFails(r.figure, {r.p.freq})
      [] r.kind = "simulated" -> TextFails(r.figure, {r.p.freq, FMul(r.p.vph, VGapMV(r.d)), FMul(r.p.z.vt, VGapMV(r.d)), FMul(r.p.z.re, r.d.rn), FMul(r.p.z.im, r.d.rn)})
      [] r.kind = "yfac" -> Clause("stated-values", NoteAt(r.figure, BestV(r.d, r.p), r.p.if.tn[r.p.if.best], {r.p.if.tn[r.p.if.best]}))
      [] r.kind = "gain_tn" -> Clause("stated-values", NoteAt(r.figure, BestV(r.d, r.p), r.p.if.tn[r.p.if.best], {r.p.if.tn[r.p.if.best]})
                                       /\ NoteAt(r.figure, BestV(r.d, r.p), r.p.if.gain[r.p.if.best], {r.p.if.gain[r.p.if.best]}))
      [] OTHER -> {}

Limits(r) ==
    IF ~r.vmaxgiven THEN {}
    ELSE LET hi == IF r.kind = "dciv" THEN LET x == MV(r.d, r.d.v) IN x[NearestTo(x, r.vmax)] ELSE r.vmax
         IN  Clause("bias-axis", XLim(r.figure, F0, hi))

FigureFails(r) ==
    IF r.what.raised # "" THEN {"plot-raised"} ELSE
    CurveFails(r.figure, Expected(r)) \cup Special(r) \cup Limits(r)
    \cup Clause("object-unchanged", r.same)
    \cup (IF r.via = "batch" THEN {} ELSE
          Clause("open-figures", r.what.opened = Opened(r.via) /\ r.what.closed = 0)
          \cup Clause("files", Words(r.what.files) = Words(r.want) /\ Words(r.what.saved) = Words(r.want))
          \cup Clause("returned", r.ret = Returned(r.via)))

BatchFails(r) ==
    IF r.raised # "" THEN {"plot-raised"} ELSE
    LET made == IF r.which = "dc" THEN DCAll(r.hasif) ELSE PumpedAll(r.names.freq, r.hasif, r.haszt)
        slash(s) == IF s = "" THEN "" ELSE s \o "/"
        place(t) == CASE r.sub = "default" -> slash(Folder(t[1])) [] r.sub = "flat" -> "" [] OTHER -> r.names.given[t[1]]
    IN  Clause("files", r.sub # "given" => Words(r.files) = {place(t) \o t[2] : t \in made})
        \cup Clause("files-given", r.sub = "given" => Words(r.files) = {slash(r.names.given[t[1]]) \o t[2] : t \in made})
        \cup Clause("object-unchanged", r.same) \cup Clause("open-figures", r.left = 0)

---------------------------------------------------------------------------
(* The overall results: figures of merit against LO frequency, and tables. *)
Of(ps, ix, f(_)) == TLCEval([k \in 1..Len(ix) |-> f(ps[ix[k]])])
FreqOf(x) == x.freq
ImpRe(x, rn) == FMul(x.zt[1], rn)
OverallCurves(r, name) ==
    LET ps == r.p
        d == r.d
        every == All(ps)
        good == SelectSeq(every, LAMBDA k : ps[k].good)
        ifgood == SelectSeq(every, LAMBDA k : ps[k].ifgood)
        against(ix, f(_)) == Curve(Of(ps, ix, FreqOf), Of(ps, ix, f))
        tn == against(every, LAMBDA x : x.tn)
    IN  CASE name = "iv_curves.png" -> {Unpumped(d)} \cup {Stating(Curve(MV(d, ps[k].v), UA(d, ps[k].i)), <<ps[k].freq>>) : k \in 1..Len(ps)}
          [] name = "rdyn.png" -> {against(every, LAMBDA x : x.rdyn)}
          [] name \in {"noise_temperature.png", "noise_temperature_spline_fit.png", "noise_temperature_logy.png"} -> {tn}
          [] name = "noise_temperature_and_gain.png" -> {tn, against(every, LAMBDA x : x.gain)}
          [] name = "if_noise.png" -> {against(ifgood, LAMBDA x : x.noise)}
          [] name = "embedding_impedance.png" -> {Named(against(good, LAMBDA x : FMul(x.zt[1], d.rn)), {"real"}), Named(against(good, LAMBDA x : FMul(x.zt[2], d.rn)), {"imaginary"})}
          [] name = "embedding_impedance_all.png" -> {Named(against(every, LAMBDA x : FMul(x.zt[1], d.rn)), {"real"}), Named(against(every, LAMBDA x : FMul(x.zt[2], d.rn)), {"imaginary"})}
          [] name = "embedding_voltage.png" -> {against(good, LAMBDA x : FMul(x.vt, VGapMV(d)))}
          [] name = "drive_level.png" -> {against(every, LAMBDA x : x.alpha)}
          [] name = "junction_impedance.png" -> {Named(against(every, LAMBDA x : FMul(x.zw[1], d.rn)), {"re"}), Named(against(every, LAMBDA x : FMul(x.zw[2], d.rn)), {"im"})}
          [] OTHER -> {}
OverallFigures == {"iv_curves.png", "rdyn.png", "noise_temperature.png", "noise_temperature_spline_fit.png", "noise_temperature_logy.png",
                   "noise_temperature_and_gain.png", "if_noise.png", "embedding_impedance.png", "embedding_impedance_all.png",
                   "embedding_voltage.png", "drive_level.png", "junction_impedance.png"}
Tables == {"results.txt", "recovered-emb.txt", "dciv-info.txt", "dciv-data.txt"}

(* the wanted numbers appear in this order among the numbers of a row *)
RECURSIVE InOrder(_, _, _, _)
InOrder(nums, want, i, k) ==
    IF k > Len(want) THEN TRUE ELSE IF i > Len(nums) THEN FALSE
    ELSE IF FLe(FAbs(FSub(nums[i].x, want[k])), FAdd(nums[i].half, FMul(FDec(1, -12), FAbs(want[k]))))
         THEN InOrder(nums, want, i + 1, k + 1) ELSE InOrder(nums, want, i + 1, k)
Has(row, want) == InOrder(row.nums, want, 1, 1)
TF(b) == IF b THEN "True" ELSE "False"
OverallFails(r) ==
    IF r.raised # "" THEN {"plot-raised"} ELSE
    LET fig(n) == LET S == {k \in 1..Len(r.figs) : r.figs[k].name = n} IN IF S = {} THEN [axes |-> <<>>] ELSE r.figs[CHOOSE k \in S : TRUE]
        vm == VGapMV(r.d)
    IN  Clause("files", Words(r.files) = {"overall-results/" \o n : n \in OverallFigures} \cup {"csv/" \o n : n \in Tables})
        \cup UNION {CurveFails(fig(n), OverallCurves(r, n)) : n \in OverallFigures}
        \cup Clause("bias-axis", XLim(fig("iv_curves.png"), F0, r.vmax))
        \cup Clause("table-results", Len(r.tables.results) = Len(r.p) /\ \A k \in 1..Len(r.p) :
                LET x == r.p[k]
                    row == r.tables.results[k] IN
                Has(row, <<x.freq, x.tn, x.gain, x.alpha, FMul(x.zt[1], r.d.rn), FMul(x.zt[2], r.d.rn), FMul(x.vt, vm), x.noise>>)
                /\ row.bools = <<TF(x.good), TF(x.ifgood)>>)
        \cup Clause("table-circuits", Len(r.tables.emb) = Len(r.p) /\ \A k \in 1..Len(r.p) :
                LET x == r.p[k]
                    row == r.tables.emb[k] IN
                Has(row, <<x.freq, FMul(x.vt, vm), FMul(x.zt[1], r.d.rn), FMul(x.zt[2], r.d.rn)>>) /\ row.bools = <<TF(x.good)>>)
        \cup Clause("table-junction", LET all == [k \in 1..Len(r.tables.info) |-> r.tables.info[k]] IN
                Len(all) = 3 /\ Has(all[1], <<vm>>) /\ Has(all[2], <<r.d.rn>>) /\ Has(all[3], <<FDiv(r.fgap, FDec(1, 9))>>))
        \cup Clause("table-curve", r.tables.dc.shape = <<Len(r.d.v), 2>> /\ FFirstFar(r.tables.dc.v, r.d.v, FDec(1, -12), FDec(1, -14)) = 0
                                   /\ FFirstFar(r.tables.dc.i, r.d.i, FDec(1, -12), FDec(1, -14)) = 0)
        \cup Clause("object-unchanged", r.same) \cup Clause("open-figures", r.left = 0)

FoldersFails(r) ==
    IF r.raised # "" THEN {"plot-raised"} ELSE
    Clause("folders", Words(r.dirs) = ResultFolders) \cup Clause("kept", r.kept)
DebugFails(r) ==
    IF r.plain # "" THEN {} ELSE IF r.raised # "" THEN {"debug-raised"} ELSE
    Clause("debug-changes-data", Len(r.a) = Len(r.b) /\ \A k \in 1..Len(r.a) : Same(r.a[k], r.b[k])) \cup Clause("argument-unchanged", r.same)

FTFails(r) ==
    CASE r.op = "figure" -> FigureFails(r)
      [] r.op = "batch" -> BatchFails(r)
      [] r.op = "overall" -> OverallFails(r)
      [] r.op = "folders" -> FoldersFails(r)
      [] r.op = "debug" -> DebugFails(r)
      [] OTHER -> {"unknown-op"}
=============================================================================
