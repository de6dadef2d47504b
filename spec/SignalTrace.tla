---------------------------- MODULE SignalTrace -----------------------------
(* Judges recorded calls of qmix.mathfn (M01-M03, R03).                    *)
EXTENDS Signal, Models, Rec, Verdict

Vec(o, n) == OKArr(o, "f", <<n>>)
TOL9(o, s) == FCloseSeq(o.v, s, RTOL9, FDec(1, -11))
(* scale-aware closeness for differences of large numbers                  *)
NearSeq(s, t, rtol, scale) == FCloseSeq(s, t, rtol, FMul(rtol, scale))

---------------------------------------------------------------------------
(* M01 *)
SlopeFails(r) ==
    LET n == Len(r.x) IN
    Clause("inputs-unchanged", r.same) \cup
    (IF ~r.out.ok THEN {"no-exception"}
     ELSE IF ~Vec(r.out, n) THEN {"length"}
     ELSE Clause("centred-differences", NearSeq(r.out.v, SlopeSeq(r.x, r.y), RTOL9, r.scale)))

Half(n) == (n - 1) \div 2
Chord(r, a, b) == FDiv(FSub(r.y[b], r.y[a]), FSub(r.x[b], r.x[a]))
IsSlope(r, d, s) == FClose(d, s, RTOL9, FMul(RTOL9, r.scale))
                    \/ (r.nozeros /\ FEq(s, F0) /\ FEq(d, FDec(1, -10)))
(* interior points: chord over n-1 or n samples, centred to within one     *)
SpanInterior(r, i) ==
    \E a \in {i - Half(r.n) - 1, i - Half(r.n)} : \E b \in {i + Half(r.n), i + Half(r.n) + 1} :
        b - a \in {r.n - 1, r.n} /\ a >= 1 /\ b <= Len(r.x) /\ IsSlope(r, r.out.v[i], Chord(r, a, b))
SpanEdge(r, i) ==
    LET L == Len(r.x) IN
    \E a \in 1..L : \E b \in (a + 1)..L : /\ b - a <= r.n /\ a - 2 <= i /\ i <= b + 2
                                          /\ IsSlope(r, r.out.v[i], Chord(r, a, b))
SpanFails(r) ==
    LET L == Len(r.x)
        h == Half(r.n)
    IN  Clause("inputs-unchanged", r.same) \cup
    (IF ~r.out.ok THEN {"no-exception"}
     ELSE IF ~Vec(r.out, L) THEN {"length"}
     ELSE Clause("interior-chords", \A i \in (h + 2)..(L - h - 1) : SpanInterior(r, i))
          \cup Clause("edge-chords", \A i \in (1..(h + 1)) \cup ((L - h)..L) : SpanEdge(r, i))
          \cup Clause("no-zeros", r.nozeros => \A i \in 1..L : ~FEq(r.out.v[i], F0))
          \cup Clause("exact-on-lines", r.line.is => \A i \in 1..L : IsSlope(r, r.out.v[i], r.line.slope)))

---------------------------------------------------------------------------
(* M02 *)
GaussFails(r) ==
    LET n == Len(r.x) IN
    Clause("inputs-unchanged", r.same) \cup
    (IF ~r.out.ok THEN {"no-exception"}
     ELSE IF ~Vec(r.out, n) THEN {"length"}
     ELSE Clause("gaussian-average-of-mirrored-data",
              NearSeq(r.out.v, SmoothSeq(r.x, Gaussian(r.sigma, r.ext)), RTOL9, r.scale)))
RejectedFails(r) == Clause("rejected", Raised(r.out))

---------------------------------------------------------------------------
(* R03 *)
KKFails(r) ==
    LET n == Len(r.v) IN
    Clause("inputs-unchanged", r.same) \cup
    (IF ~r.out.ok THEN {"no-exception"}
     ELSE IF ~Vec(r.out, n) THEN {"length"}
     ELSE Clause("minus-hilbert-transform-of-excess-current",
              NearSeq(r.out.v, KKSeq(r.v, r.i, r.n), FDec(1, -8), r.scale))
          \cup Clause("ohmic-is-zero", r.ohmic => \A k \in 1..n : FLe(FAbs(r.out.v[k]), FMul(FDec(1, -10), r.scale)))
          \cup Clause("even-for-odd-input", r.odd => \A k \in 1..n :
                  FClose(r.out.v[k], r.out.v[n + 1 - k], RTOL9, FMul(FDec(1, -9), r.scale))))
(* the principal-value integral by the trapezoidal rule without the        *)
(* singular point                                                          *)
TrapzAt(v, i, a) ==
    LET idx == [k \in 1..(Len(v) - 1) |-> IF k < a THEN k ELSE k + 1]
        g == TLCEval([k \in 1..Len(idx) |-> FDiv(FSub(i[idx[k]], v[idx[k]]), FSub(v[idx[k]], v[a]))])
    IN  FDiv(FSum([k \in 1..(Len(idx) - 1) |->
              FMul(FMul(FDec(5, -1), FAdd(g[k], g[k + 1])), FSub(v[idx[k + 1]], v[idx[k]]))]), PI)
TrapzFails(r) ==
    LET n == Len(r.v) IN
    Clause("inputs-unchanged", r.same) \cup
    (IF ~r.out.ok THEN {"no-exception"}
     ELSE IF ~Vec(r.out, n) THEN {"length"}
     ELSE Clause("principal-value-integral",
              NearSeq(r.out.v, TLCEval([a \in 1..n |-> TrapzAt(r.v, r.i, a)]), FDec(1, -8), r.scale)))
(* agreement of the transforms with each other and with the ideal junction *)
AgreeFails(r) ==
    IF ~r.fft.ok \/ ~r.ref.ok THEN {"no-exception"}
    ELSE IF r.fft.kind # "f" \/ r.ref.kind # "f" \/ Len(r.fft.v) # Len(r.ref.v) THEN {"length"}
    ELSE Clause("agrees", \A k \in 1..Len(r.at) : FClose(r.fft.v[r.at[k]], r.ref.v[r.at[k]], F0, r.tol))

---------------------------------------------------------------------------
(* M03 *)
ModelAt(r, v) ==
    CASE r.name = "perfect" -> Perfect(v)
      [] r.name = "perfect_kk" -> PerfectKK(v, r.q.cap)
      [] r.name = "polynomial" -> Polynomial(v, r.q.order)
      [] r.name = "fixed" -> ExpFixed(v, r.q)
      [] r.name = "original" -> ExpOriginal(v, r.q)
      [] r.name = "expanded" -> Expanded(v, r.q)
ModelFails(r) ==
    Clause("inputs-unchanged", r.same) \cup
    (IF ~r.out.ok THEN {"no-exception"}
     ELSE IF ~(r.out.kind = "f" /\ r.out.shape = r.shape) THEN {"shape"}
     ELSE Clause("formula", \A k \in 1..Len(r.v) : FClose(r.out.v[k], ModelAt(r, r.v[k]), RTOL9, FDec(1, -10)))
          \cup Clause(IF r.name = "perfect_kk" THEN "even" ELSE "odd", r.mirror.ok /\ r.mirror.shape = r.shape /\
                  \A k \in 1..Len(r.v) : FClose(r.mirror.v[k],
                      IF r.name = "perfect_kk" THEN r.out.v[k] ELSE FNeg(r.out.v[k]), RTOL9, FDec(1, -11)))
          \cup Clause("normal-line", \A k \in 1..Len(r.v) :
                  (r.name \in {"perfect", "fixed"} \/ (r.name = "polynomial" /\ r.q.order >= 10)) /\ FLe(FI(2), FAbs(r.v[k])) =>
                      FClose(r.out.v[k], r.v[k], FDec(1, -6), F0))
          \cup Clause("subgap-resistance", \A k \in 1..Len(r.v) :
                  r.name = "fixed" /\ FLe(FAbs(r.v[k]), FDec(5, -1)) =>
                      FClose(r.out.v[k], FMul(r.v[k], FDiv(r.q.rn, r.q.rsg)), FDec(1, -4), FDec(1, -9))))

SignalFails(r) ==
    CASE r.op = "slope" -> SlopeFails(r)
      [] r.op = "span" -> SpanFails(r)
      [] r.op = "gauss" -> GaussFails(r)
      [] r.op = "rejected" -> RejectedFails(r)
      [] r.op = "kk" -> KKFails(r)
      [] r.op = "trapz" -> TrapzFails(r)
      [] r.op = "agree" -> AgreeFails(r)
      [] r.op = "model" -> ModelFails(r)
      [] OTHER -> {"unknown-op"}
=============================================================================
