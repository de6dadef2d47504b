------------------------------- MODULE Models -------------------------------
(* The I-V curve models, from their documentation.                         *)
EXTENDS Complex, TLC
PIm == FStr("3.141592653589793")
Perfect(v) == LET a == FAbs(v) IN
    IF FLt(a, F1) THEN F0 ELSE IF FEq(a, F1) THEN FMul(FDec(5, -1), v) ELSE v
PerfectKK(v, cap) ==
    IF FEq(FAbs(v), F1) THEN cap
    ELSE FNeg(FDiv(FAdd(F2, FMul(v, FLog(FAbs(FDiv(FSub(v, F1), FAdd(v, F1)))))), PIm))
(* v^(2n+1) / (1 + v^2n), above the gap divided through by v^2n so that no *)
(* order is too large for a double                                         *)
Polynomial(v, n) ==
    IF FLe(FAbs(v), F1) THEN FDiv(FMul(v, FPow(v, FI(2 * n))), FAdd(F1, FPow(v, FI(2 * n))))
    ELSE FDiv(v, FAdd(F1, FPow(v, FI(-2 * n))))
Logistic(x) == FDiv(F1, FAdd(F1, FExp(FNeg(x))))
(* q: record of vgap, rn, rsg, agap.  inside = 1 between -vgap and vgap.    *)
Inside(V, q) == FSub(Logistic(FMul(q.agap, FAdd(V, q.vgap))), Logistic(FMul(q.agap, FSub(V, q.vgap))))
Above(V, q) == FAdd(Logistic(FMul(q.agap, FSub(V, q.vgap))), Logistic(FMul(FNeg(q.agap), FAdd(V, q.vgap))))
Norm(i, q) == FMul(i, FDiv(q.rn, q.vgap))
(* fixed: V/rsg inside, V/rn outside *)
ExpFixed(v, q) ==
    LET V == FMul(v, q.vgap)
    IN  Norm(FAdd(FMul(FDiv(V, q.rsg), Inside(V, q)), FMul(FDiv(V, q.rn), Above(V, q))), q)
(* original (Rashid 2016): V/rsg weighted 1 + inside, V/rn outside         *)
ExpOriginal(v, q) ==
    LET V == FMul(v, q.vgap)
    IN  Norm(FAdd(FMul(FDiv(V, q.rsg), FAdd(Logistic(FMul(q.agap, FAdd(V, q.vgap))),
                                            Logistic(FMul(FNeg(q.agap), FSub(V, q.vgap))))),
                  FMul(FDiv(V, q.rn), Above(V, q))), q)
(* expanded: the fixed model plus leakage, the onset at vnot, the offset   *)
Pair(V, a, b) == FSub(FAdd(Logistic(FMul(FNeg(a), FSub(V, b))), Logistic(FMul(FNeg(a), FAdd(V, b)))), F1)
Expanded(v, q) ==
    LET V == FMul(v, q.vgap)
        leak == FMul(q.ileak, FSub(FSub(FMul(F2, Logistic(FMul(q.a0, V))), F1),
                     FSub(Logistic(FMul(q.agap, FSub(V, q.vgap))), Logistic(FMul(FNeg(q.agap), FAdd(V, q.vgap))))))
        knee == FMul(q.inot, Pair(V, q.anot, q.vnot))
        offs == FMul(q.ioff, Pair(V, q.agap, q.vgap))
    IN  FAdd(ExpFixed(v, q), Norm(FAdd(leak, FAdd(knee, offs)), q))
=============================================================================
