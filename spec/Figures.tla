------------------------------ MODULE Figures ------------------------------
(***************************************************************************)
(* What the figures of imported data show: for every kind of figure the    *)
(* curves (in mV, uA, K, ohms), the words and numbers that label them, and  *)
(* the limits of the bias axis.                                            *)
(* d - DC data: v, i (normalised curve), vgap, igap, rn, rsg, vint, vleak, *)
(*     ileak and, if d.hasif, d.if = [v, p, lv, lp, noise];                *)
(* p - pumped data: v, i, freq, vph; if p.hasif, p.if = [v, hot, cold, tn, *)
(*     gain, best]; if p.haszt, p.z = [re, im, vt, fit, remb, xemb] and    *)
(*     p.sim, the simulated curve.                                         *)
(* A curve is [x, y, words, nums, free]: its label has the words and shows *)
(* the numbers; free - a vertical line, whose extent is not specified.     *)
(***************************************************************************)
EXTENDS Import

K3 == FI(1000)
M6 == FI(1000000)
MV(d, s) == LET u == FMul(d.vgap, K3) IN Map1(s, LAMBDA x : FMul(x, u))
UA(d, s) == LET u == FMul(d.igap, M6) IN Map1(s, LAMBDA x : FMul(x, u))
Curve(x, y) == [x |-> x, y |-> y, words |-> {}, nums |-> <<>>, free |-> FALSE]
Point(x, y) == Curve(<<x>>, <<y>>)
VLine(x) == [x |-> <<x, x>>, y |-> <<F0, F0>>, words |-> {}, nums |-> <<>>, free |-> TRUE]
Named(c, w) == [c EXCEPT !.words = w]
Stating(c, n) == [c EXCEPT !.nums = n]
NonZero(s) == SelectSeq(All(s), LAMBDA k : ~FEq(s[k], F0))
Line(v, f(_)) == Map1(v, f)

VGapMV(d) == FMul(d.vgap, K3)
Unpumped(d) == Curve(MV(d, d.v), UA(d, d.i))
PumpedCurve(d, p) == LET ix == NonZero(p.i) IN Curve(MV(d, Pick(p.v, ix)), UA(d, Pick(p.i, ix)))
(* the normal-state line (V - vint)/rn, in uA *)
NormalLine(d) == Curve(MV(d, d.v), Map1(d.v, LAMBDA x : FMul(FDiv(FSub(FMul(x, d.vgap), d.vint), d.rn), M6)))
GapMarks(d, p) == {VLine(VGapMV(d)), VLine(FSub(VGapMV(d), FMul(p.vph, VGapMV(d))))}

DCIV(d) ==
    LET x == MV(d, d.v)
        y == UA(d, d.i)
        near == Between(x, FSub(FMul(d.vleak, K3), FDec(2, -1)), FAdd(FMul(d.vleak, K3), FDec(2, -1)))
        fit == LineFit(Pick(x, near), Pick(y, near))
        gap == FMul(InterpAt(d.v, d.i, F1, d.i[1], d.i[Len(d.i)]), FMul(d.igap, M6))
        leak == FMul(d.ileak, M6)
    IN  {Unpumped(d),
         Stating(Point(VGapMV(d), gap), <<VGapMV(d)>>),
         Stating(Point(FMul(d.vleak, K3), leak), <<leak>>),
         Stating(NormalLine(d), <<d.rn>>),
         Stating(Curve(x, Map1(x, LAMBDA t : FAdd(FMul(fit[1], t), fit[2]))), <<d.rsg>>)}
Offset(d) == LET x == MV(d, d.v)
                 y == UA(d, d.i)
                 ix == Between(x, FDec(-2, -1), FDec(2, -1))
             IN  {Curve(Pick(x, ix), Pick(y, ix))}
IFNoise(d) ==
    {Unpumped(d), NormalLine(d), VLine(FMul(d.vint, K3)),
     Curve(MV(d, d.if.v), d.if.p), Curve(MV(d, d.if.lv), d.if.lp),
     Stating(Point(FMul(d.vint, K3), d.if.noise), <<d.if.noise>>)}

IV(d, p) == {Named(Unpumped(d), {"unpumped"}), Named(PumpedCurve(d, p), {"pumped"})} \cup GapMarks(d, p)
NoLO(d) == IF d.hasif THEN {Curve(MV(d, d.if.v), d.if.p)} ELSE {}
IFs(d, p) == {Named(Curve(MV(d, p.if.v), p.if.hot), {"hot"}), Named(Curve(MV(d, p.if.v), p.if.cold), {"cold"})} \cup NoLO(d)
Part2(d, p, s) == LET ix == NonZero(s) IN Curve(MV(d, Pick(p.if.v, ix)), Pick(s, ix))
IVIF(d, p) == IV(d, p) \cup {Named(Part2(d, p, p.if.hot), {"hot"}), Named(Part2(d, p, p.if.cold), {"cold"})}
BestV(d, p) == FMul(p.if.v[p.if.best], VGapMV(d))
BestTn(d, p) == Point(BestV(d, p), p.if.tn[p.if.best])
FIVE == Gaussian(FI(5), FI(3))
NoiseTemp(d, p) ==
    LET ix == NonZero(p.if.hot)
        x == MV(d, Pick(p.if.v, ix))
    IN  {Named(Curve(x, SmoothSeq(Pick(p.if.hot, ix), FIVE)), {"hot"}), Named(Curve(x, SmoothSeq(Pick(p.if.cold, ix), FIVE)), {"cold"}),
         Curve(x, Pick(p.if.tn, ix)), Stating(BestTn(d, p), <<p.if.tn[p.if.best]>>)}
YFactor(d, p) ==
    LET x == MV(d, p.if.v) IN
    {Curve(x, Map2(SmoothSeq(p.if.hot, FIVE), SmoothSeq(p.if.cold, FIVE), LAMBDA a, b : FDiv(a, b))), Curve(x, p.if.tn), BestTn(d, p)}
GainTn(d, p) ==
    LET x == MV(d, p.if.v) IN
    {Curve(x, p.if.gain), Curve(x, p.if.tn), BestTn(d, p), Point(BestV(d, p), p.if.gain[p.if.best])}
Gain(d, p) == {Curve(MV(d, p.if.v), Map1(p.if.gain, LAMBDA x : FMul(FI(100), x)))}

(* the part of the photon step that was fitted *)
FitLo(p) == FAdd(FSub(F1, p.vph), FMul(p.vph, p.z.fit[1]))
FitHi(p) == FSub(F1, FMul(p.vph, FSub(F1, p.z.fit[2])))
Simulated(d, p) ==
    LET ends == <<FitLo(p), FitHi(p)>> IN
    {Unpumped(d), PumpedCurve(d, p), Curve(MV(d, p.sim.v), UA(d, p.sim.i)),
     Curve(MV(d, ends), UA(d, Hold(p.sim.v, p.sim.i, ends)))} \cup GapMarks(d, p)

CellRe(d, p, a) == FMul(FLinspace(p.z.remb[1], p.z.remb[2], 101)[a], d.rn)
CellIm(d, p, b) == FMul(FLinspace(p.z.xemb[1], p.z.xemb[2], 201)[b], d.rn)
Log10(x) == FDiv(FLog(x), FLog(FI(10)))
=============================================================================
