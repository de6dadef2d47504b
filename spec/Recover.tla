------------------------------ MODULE Recover ------------------------------
(***************************************************************************)
(* Impedance recovery (RF voltage match) over doubles.                     *)
(* A measurement m has: v, i - bias and pumped current of K samples;       *)
(* idc, kk - the response function and its Kramers-Kronig transform at     *)
(* v[k] + n*vph for n = -nb..nb (row k, column n + nb + 1); vph; amax;     *)
(* fit - fraction of the first photon step used, [lo, hi].                 *)
(***************************************************************************)
EXTENDS Complex, TLC, FiniteSets

Sub(s, ix) == TLCEval([k \in 1..Len(ix) |-> s[ix[k]]])

(* The part of the first photon step below the gap (the gap is at 1).      *)
StepLo(m) == FAdd(FSub(F1, m.vph), FMul(m.vph, m.fit[1]))
StepHi(m) == FSub(F1, FMul(m.vph, FSub(F1, m.fit[2])))
Selected(m) == SelectSeq([k \in 1..Len(m.v) |-> k], LAMBDA k : FLe(StepLo(m), m.v[k]) /\ FLe(m.v[k], StepHi(m)))
Middle(m, ix) == LET c == FSub(F1, FDiv(m.vph, F2))
                     d(k) == FAbs(FSub(m.v[ix[k]], c))
                 IN  CHOOSE k \in 1..Len(ix) : \A l \in 1..Len(ix) : FLe(d(k), d(l))

(* J_n(a) for n = -(nb+1)..(nb+1) *)
Bessels(a, nb) == TLCEval([n \in 1..(2 * nb + 3) |-> FBesselJ(n - nb - 2, a)])
Pumped(row, nb, a) == FSum([n \in 1..(2 * nb + 1) |-> LET j == FBesselJ(n - nb - 1, a) IN FMul(FMul(j, j), row[n])])
ACCurrent(idc, kk, nb, a) ==
    LET J == Bessels(a, nb) IN
    <<FSum([n \in 1..(2 * nb + 1) |-> FMul(FMul(J[n + 1], FAdd(J[n], J[n + 2])), idc[n])]),
      FSum([n \in 1..(2 * nb + 1) |-> FMul(FMul(J[n + 1], FSub(J[n], J[n + 2])), kk[n])])>>

(* The drive level at which the pumped current is the measured one (the    *)
(* pumped current grows with the level on the first step): bisection.      *)
RECURSIVE Bisect(_, _, _, _, _, _)
Bisect(row, nb, i, lo, hi, n) ==
    IF n = 0 THEN FDiv(FAdd(lo, hi), F2)
    ELSE LET c == FDiv(FAdd(lo, hi), F2) IN
         IF FLt(Pumped(row, nb, c), i) THEN Bisect(row, nb, i, c, hi, n - 1) ELSE Bisect(row, nb, i, lo, c, n - 1)
Drive(m, k) == Bisect(m.idc[k], m.nb, m.i[k], F0, FMul(FDec(14, -1), m.amax), 40)

(* alpha_max is a starting value, not a limit: the search starts from the   *)
(* level extrapolated from it and can move by half of alpha_max.  Within    *)
(* reach: both the level and the way to it.                                 *)
Extrapolated(m, k) == LET i0 == m.idc[k][m.nb + 1]
                          d == FSub(Pumped(m.idc[k], m.nb, m.amax), i0)
                      IN  FMul(FDiv(FSub(m.i[k], i0), d), m.amax)
Reachable(m, k, a) == FLe(FAbs(FSub(a, Extrapolated(m, k))), FMul(FDec(45, -2), m.amax)) /\ FLe(a, FMul(FDec(135, -2), m.amax))
                      /\ FLt(a, FDec(22, -1))

(* For the selected samples: drive levels, voltages, impedances.           *)
Drives(m, ix) == TLCEval([k \in 1..Len(ix) |-> Drive(m, ix[k])])
Volts(m, al) == TLCEval([k \in 1..Len(al) |-> FMul(al[k], m.vph)])
Imps(m, ix, al) == TLCEval([k \in 1..Len(ix) |-> CDiv(CR(FMul(al[k], m.vph)), ACCurrent(m.idc[ix[k]], m.kk[ix[k]], m.nb, al[k]))])

(* What an embedding impedance zs explains of the junction voltages v at   *)
(* junction impedances z: least-squares source voltage and residual.       *)
Part(z, zs) == TLCEval([k \in 1..Len(z) |-> CAbs(CDiv(z[k], CAdd(zs, z[k])))])
Source(v, z, zs) == LET p == Part(z, zs) IN FDiv(FDot(v, p), FDot(p, p))
Misfit(v, z, zs) ==
    LET p == Part(z, zs)
        s == FDiv(FDot(v, p), FDot(p, p))
        d == TLCEval([k \in 1..Len(v) |-> FSub(v[k], FMul(s, p[k]))])
    IN  FDiv(FDot(d, d), FI(Len(v)))

(* The search grid *)
GridRe(m) == TLCEval(FLinspace(m.remb[1], m.remb[2], 101))
GridIm(m) == TLCEval(FLinspace(m.xemb[1], m.xemb[2], 201))
Nearest(s, x) == CHOOSE k \in 1..Len(s) : \A l \in 1..Len(s) : FLe(FAbs(FSub(s[k], x)), FAbs(FSub(s[l], x)))
=============================================================================
