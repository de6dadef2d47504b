----------------------------- MODULE RespTrace ------------------------------
(* Judges recorded response functions (R01, R02, R04, R05).                *)
(*                                                                         *)
(* A response function is specified by its source: positive-voltage grid V *)
(* and current I, from a model, from measured data, or given directly.     *)
(* Its table is the odd extension of (V, I), smeared if asked for; its     *)
(* transform is KK of the table; its curves interpolate the table.         *)
EXTENDS Signal, Models, Rec, Verdict

VGRID == FLinspace(F0, FI(35), 7001)
Near(x, y, tol) == FClose(x, y, F0, tol)

(* linear interpolation of the points (x, y), x increasing, at t within    *)
RECURSIVE Seg(_, _, _, _)
Seg(x, t, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF FLe(x[m], t) THEN Seg(x, t, m, hi) ELSE Seg(x, t, lo, m)
Lerp(x, y, t) == LET k == Seg(x, t, 1, Len(x))
                     s == FDiv(FSub(y[k + 1], y[k]), FSub(x[k + 1], x[k]))
                 IN  FAdd(y[k], FMul(s, FSub(t, x[k])))

(* measured data: samples at positive voltages below the limit, the origin *)
(* and a unit slope above                                                  *)
Prep(s) ==
    IF s.kind # "data" THEN s
    ELSE LET keep == TLCEval(SelectSeq([k \in 1..Len(s.v) |-> k], LAMBDA k : FLt(F0, s.v[k]) /\ FLt(s.v[k], s.vlimit)))
         IN  [kind |-> "data", vlimit |-> s.vlimit,
              x |-> TLCEval([k \in 1..Len(keep) |-> s.v[keep[k]]]), y |-> TLCEval([k \in 1..Len(keep) |-> s.i[keep[k]]])]
DataI(s, t) ==
    LET n == Len(s.x)
    IN  IF FLe(s.x[n], t) THEN FAdd(s.y[n], FSub(t, s.x[n]))
        ELSE IF FLt(t, s.x[1]) THEN FMul(FDiv(s.y[1], s.x[1]), t)
        ELSE Lerp(s.x, s.y, t)

SrcGrid(s) == IF s.kind = "grid" THEN s.v ELSE VGRID
(* current of the source at grid point k (1 = zero voltage)                *)
SrcI(s, k) ==
    CASE s.kind = "grid" -> s.i[k]
      [] s.kind = "data" -> DataI(s, VGRID[k])
      [] s.kind = "perfect" -> Perfect(VGRID[k])
      [] s.kind = "polynomial" -> Polynomial(VGRID[k], s.order)
      [] s.kind = "exponential" -> ExpFixed(VGRID[k], s.q)

(* odd extension: position p of the table *)
Half(n) == (n + 1) \div 2
TableV(s, p, n) == IF p < Half(n) THEN FNeg(SrcGrid(s)[Half(n) - p + 1]) ELSE SrcGrid(s)[p - Half(n) + 1]
TableI(s, p, n) == IF p < Half(n) THEN FNeg(SrcI(s, Half(n) - p + 1)) ELSE SrcI(s, p - Half(n) + 1)

(* smeared: Gaussian average of the excess current                         *)
SmearWindow(r) == Gaussian(FDiv(r.smear.sigma, FSub(r.v[2], r.v[1])), FI(3))
Excess(r) == [k \in 1..Len(r.v) |-> FSub(TableI(r.src, k, Len(r.v)), r.v[k])]

TableFails(rec) ==
    LET r == TLCEval([rec EXCEPT !.src = Prep(rec.src)])
        n == Len(r.v)
        w == TLCEval(IF r.smear.is THEN SmearWindow(r) ELSE <<>>)
        exc == TLCEval(IF r.smear.is THEN Excess(r) ELSE <<>>)
    IN
    Clause("inputs-unchanged", r.same) \cup
    (IF ~r.made.ok THEN {"no-exception"}
     ELSE IF ~(OKArr(r.tv, "f", <<n>>) /\ OKArr(r.ti, "f", <<n>>) /\ OKArr(r.tkk, "f", <<n>>) /\ OKArr(r.tvkk, "f", <<n>>))
     THEN {"table-shape"}
     ELSE Clause("table-voltage", FCloseSeq(r.tv.v, [p \in 1..n |-> TableV(r.src, p, n)], RTOL9, FDec(1, -12))
                                  /\ FCloseSeq(r.tvkk.v, r.tv.v, F0, F0))
          \cup Clause("table-current", \A k \in 1..Len(r.at) :
                  FClose(r.ti.v[r.at[k]],
                         IF r.smear.is THEN FAdd(SmoothAt(exc, w, r.at[k]), r.v[r.at[k]]) ELSE TableI(r.src, r.at[k], n),
                         RTOL9, FDec(1, -9)))
          \cup Clause("odd", \A p \in 1..n : FClose(r.ti.v[p], FNeg(r.ti.v[n + 1 - p]), F0, FDec(1, -9)))
          \cup Clause("transform-even", \A p \in 1..n : FClose(r.tkk.v[p], r.tkk.v[n + 1 - p], F0, FDec(1, -8)))
          \cup Clause("normal-line-kept", r.normal => \A p \in 1..n :
                  FLe(FI(2), FAbs(r.v[p])) => FClose(r.ti.v[p], r.v[p], FDec(1, -6), F0))
          \cup Clause("transform-of-the-current",
                 IF r.src.kind = "perfect" /\ ~r.smear.is
                 THEN FCloseSeq(r.tkk.v, TLCEval([p \in 1..n |-> PerfectKK(r.v[p], FI(100))]), FDec(1, -8), FDec(1, -8))
                 ELSE LET x == TLCEval([p \in 1..n |-> FSub(r.v[p], r.ti.v[p])])
                          tab == HilbertTable(n, n * r.n)
                      IN  \A k \in 1..Len(r.kkat) : Near(r.tkk.v[r.kkat[k]], HilbertAt(x, tab, r.kkat[k]), FDec(1, -8))))

(* the curves at the table's own voltages (positions r.at)                 *)
CurveFails(r) ==
    LET n == Len(r.v)
        src == TLCEval(Prep(r.src))
    IN
    IF ~r.idc.ok \/ ~r.ikk.ok THEN {"no-exception"}
    ELSE IF ~(OKArr(r.idc, "f", <<n>>) /\ OKArr(r.ikk, "f", <<n>>)) THEN {"shape"}
    ELSE Clause("current-at-samples", FCloseSeq(r.idc.v, r.ti, F0, r.tol))
         \cup Clause("transform-at-samples", FCloseSeq(r.ikk.v, r.tkk, F0, r.tolkk))
         \cup Clause("normal-line", \A k \in 1..n : r.normal /\ FLe(FI(2), FAbs(r.v[k])) => Near(r.idc.v[k], r.v[k], FDec(1, -3)))
         \cup Clause("unit-slope-beyond-limit", r.src.kind = "data" => \A k \in 1..n :
                 LET off == FSub(DataI(src, FI(30)), FI(30)) IN
                 FLe(FAdd(r.src.vlimit, FDec(2, -1)), r.v[k]) => Near(r.idc.v[k], FAdd(r.v[k], off), r.tol))

---------------------------------------------------------------------------
(* R01: the combinations and derivatives, for any arrangement of voltages  *)
EvalFails(r) ==
    LET n == Len(r.v)
        all == <<r.idc, r.ikk, r.mdc, r.mkk>>
        real(o) == o.ok /\ o.kind = "f" /\ o.shape = r.shape
        cplx(o) == o.ok /\ o.kind = "c" /\ o.shape = r.shape
    IN  Clause("inputs-unchanged", r.same) \cup
    (IF \E k \in 1..4 : ~all[k].ok THEN {"no-exception"}
     ELSE IF \E k \in 1..4 : ~real(all[k]) THEN {"shape"}
     ELSE IF ~(cplx(r.resp) /\ cplx(r.called) /\ cplx(r.conj) /\ cplx(r.swap)) THEN {"complex-shape"}
     ELSE Clause("odd", \A k \in 1..n : Near(r.mdc.v[k], FNeg(r.idc.v[k]), r.tolodd))
          \cup Clause("even", \A k \in 1..n : Near(r.mkk.v[k], r.ikk.v[k], r.toleven))
          \cup Clause("resp", \A k \in 1..n : CClose(r.resp.v[k], <<r.ikk.v[k], r.idc.v[k]>>, FDec(1, -12), FDec(1, -12)))
          \cup Clause("call", \A k \in 1..n : CClose(r.called.v[k], <<r.ikk.v[k], r.idc.v[k]>>, FDec(1, -12), FDec(1, -12)))
          \cup Clause("conj", \A k \in 1..n : CClose(r.conj.v[k], <<r.ikk.v[k], FNeg(r.idc.v[k])>>, FDec(1, -12), FDec(1, -12)))
          \cup Clause("swap", \A k \in 1..n : CClose(r.swap.v[k], <<r.idc.v[k], r.ikk.v[k]>>, FDec(1, -12), FDec(1, -12)))
          \cup Clause("elementwise", FCloseSeq(r.single.idc, r.idc.v, FDec(1, -12), FDec(1, -12))
                                     /\ FCloseSeq(r.single.ikk, r.ikk.v, FDec(1, -12), FDec(1, -12)))
          \cup (IF ~r.deriv THEN {}
                ELSE IF ~(real(r.didc) /\ real(r.dikk)) THEN {"derivative-shape"}
                ELSE LET d(hi, lo, k) == FDiv(FSub(hi[k], lo[k]), FMul(F2, r.h))
                         ok(got, hi, lo) == \A k \in 1..n :
                             FClose(got[k], d(hi, lo, k), FDec(1, -3), FDec(2, -3))
                     IN  Clause("derivative-of-current", ok(r.didc.v, r.up.idc, r.down.idc))
                         \cup Clause("derivative-of-transform", ok(r.dikk.v, r.up.ikk, r.down.ikk))))

RejectedFails(r) == Clause("rejected", Raised(r.out))

---------------------------------------------------------------------------
(* R05: acceptance by the worst deviation over |v| < 34                    *)
WorstOf(v, a, b) == FMaxSeq([k \in 1..Len(v) |-> IF FLt(FAbs(v[k]), FI(34)) THEN FAbs(FSub(a[k], b[k])) ELSE F0])
CheckFails(r) ==
    LET dc == WorstOf(r.v, r.i, r.idc)
        kk == WorstOf(r.v, r.kk, r.ikk)
        worst == FMax(dc, kk)
        (* limits within a part in 1e6 of the worst deviation are not decided *)
        must(k) == FLt(FMul(worst, FAdd(F1, FDec(1, -6))), r.tries[k].limit)
        mustnot(k) == FLt(r.tries[k].limit, FMul(worst, FSub(F1, FDec(1, -6))))
    IN  UNION {(IF r.tries[k].check
                THEN Clause("accepts-within-limit", must(k) => r.tries[k].ok)
                     \cup Clause("rejects-beyond-limit", mustnot(k) => ~r.tries[k].ok)
                ELSE Clause("unchecked-never-fails", r.tries[k].ok)) : k \in 1..Len(r.tries)}
        \cup Clause("monotone-in-limit", \A a, b \in 1..Len(r.tries) :
                r.tries[a].check /\ r.tries[b].check /\ r.tries[a].ok
                /\ FLe(r.tries[a].limit, r.tries[b].limit) => r.tries[b].ok)

RespFails(r) ==
    CASE r.op = "table" -> TableFails(r)
      [] r.op = "curve" -> CurveFails(r)
      [] r.op = "eval" -> EvalFails(r)
      [] r.op = "rejected" -> RejectedFails(r)
      [] r.op = "check" -> CheckFails(r)
      [] OTHER -> {"unknown-op"}
=============================================================================
