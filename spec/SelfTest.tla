------------------------------ MODULE SelfTest ------------------------------
(* Written by tools/selftest.py: every derived operator of Float64 and Complex that Java overrides,
   compared with its TLA+ definition (here under the name RefX) on a grid of values. *)
EXTENDS Complex, TLC


RefFMax(x, y) == IF FIsNaN(x) \/ FIsNaN(y) THEN FDiv(F0, F0) ELSE IF FLt(x, y) THEN y ELSE x
RefFMin(x, y) == IF FIsNaN(x) \/ FIsNaN(y) THEN FDiv(F0, F0) ELSE IF FLt(x, y) THEN x ELSE y

RECURSIVE RefFPowI(_, _)
RefFPowI(x, n) == IF n = 0 THEN F1
               ELSE IF n < 0 THEN FDiv(F1, RefFPowI(x, -n))
               ELSE FMul(RefFPowI(x, n - 1), x)

RECURSIVE RefFSumTo(_, _)
RefFSumTo(s, k) == IF k = 0 THEN F0 ELSE FAdd(RefFSumTo(s, k - 1), s[k])
RefFSum(s) == RefFSumTo(s, Len(s))

RECURSIVE RefFDotTo(_, _, _)
RefFDotTo(s, t, k) == IF k = 0 THEN F0
                   ELSE FAdd(RefFDotTo(s, t, k - 1), FMul(s[k], t[k]))
RefFDot(s, t) == RefFDotTo(s, t, Len(s))

RECURSIVE RefFMaxTo(_, _), RefFMinTo(_, _)
RefFMaxTo(s, k) == IF k = 1 THEN s[1] ELSE RefFMax(RefFMaxTo(s, k - 1), s[k])
RefFMinTo(s, k) == IF k = 1 THEN s[1] ELSE RefFMin(RefFMinTo(s, k - 1), s[k])
RefFMaxSeq(s) == RefFMaxTo(s, Len(s))
RefFMinSeq(s) == RefFMinTo(s, Len(s))
RefFMaxAbs(s) == RefFMaxSeq([k \in 1..Len(s) |-> FAbs(s[k])])

RefFClose(x, y, rtol, atol) ==
    FEq(x, y) \/ FLe(FAbs(FSub(x, y)), FAdd(atol, FMul(rtol, FAbs(y))))

RefFFirstFar(s, t, rtol, atol) ==
    IF Len(s) # Len(t) THEN -1
    ELSE LET far == {k \in 1..Len(s) : ~RefFClose(s[k], t[k], rtol, atol)}
         IN  IF far = {} THEN 0 ELSE CHOOSE k \in far : \A j \in far : k <= j

RefFLinspace(a, z, n) ==
    [k \in 1..n |-> IF n = 1 THEN a ELSE IF k = n THEN z
                    ELSE FAdd(a, FDiv(FMul(FSub(z, a), FI(k - 1)), FI(n - 1)))]

(* J_n(x) = sum_k (-1)^k (x/2)^(2k+n) / (k! (n+k)!), truncated at K terms. *)
RECURSIVE RefBesTerm0(_, _, _), RefBesSum(_, _, _, _, _)
RefBesTerm0(h, n, k) == IF k = 0 THEN F1
                     ELSE FMul(RefBesTerm0(h, n, k - 1), FDiv(h, FI(k)))
RefBesSum(h, n, k, t, acc) ==
    IF k = 60 THEN acc
    ELSE RefBesSum(h, n, k + 1,
                FMul(t, FDiv(FNeg(FMul(h, h)), FMul(FI(k + 1), FI(n + k + 1)))),
                FAdd(acc, t))
RefFBesselJ(n, x) ==
    IF n < 0
    THEN LET h == FDiv(x, F2)
             r == RefBesSum(h, -n, 0, RefBesTerm0(h, -n, -n), F0)
         IN  IF (-n) % 2 = 0 THEN r ELSE FNeg(r)
    ELSE LET h == FDiv(x, F2) IN RefBesSum(h, n, 0, RefBesTerm0(h, n, n), F0)


RefC0 == <<F0, F0>>
RefC1 == <<F1, F0>>
RefCJ == <<F0, F1>>
RefRe(x) == x[1]
RefIm(x) == x[2]
RefCR(r) == <<r, F0>>

RefCAdd(x, y) == <<FAdd(x[1], y[1]), FAdd(x[2], y[2])>>
RefCSub(x, y) == <<FSub(x[1], y[1]), FSub(x[2], y[2])>>
RefCMul(x, y) == <<FSub(FMul(x[1], y[1]), FMul(x[2], y[2])),
                FAdd(FMul(x[1], y[2]), FMul(x[2], y[1]))>>
RefCDiv(x, y) == LET n == FAdd(FMul(y[1], y[1]), FMul(y[2], y[2]))
              IN  <<FDiv(FAdd(FMul(x[1], y[1]), FMul(x[2], y[2])), n),
                    FDiv(FSub(FMul(x[2], y[1]), FMul(x[1], y[2])), n)>>
RefCNeg(x) == <<FNeg(x[1]), FNeg(x[2])>>
RefCConj(x) == <<x[1], FNeg(x[2])>>
RefCScale(s, x) == <<FMul(s, x[1]), FMul(s, x[2])>>
RefCAbs(x) == FSqrt(FAdd(FMul(x[1], x[1]), FMul(x[2], x[2])))
RefCArg(x) == FAtan2(x[2], x[1])
RefCExpJ(t) == <<FCos(t), FSin(t)>>

RECURSIVE RefCSumTo(_, _)
RefCSumTo(s, k) == IF k = 0 THEN RefC0 ELSE RefCAdd(RefCSumTo(s, k - 1), s[k])
RefCSum(s) == RefCSumTo(s, Len(s))
RefCDot(s, t) == RefCSum([k \in 1..Len(s) |-> RefCMul(s[k], t[k])])

RefCClose(x, y, rtol, atol) ==
    FLe(RefCAbs(RefCSub(x, y)), FAdd(atol, FMul(rtol, RefCAbs(y))))
RefCFinite(x) == FIsFinite(x[1]) /\ FIsFinite(x[2])

(***************************************************************************)
VARIABLE done
Vals == {F0, F1, F2, FNeg(F1), FNeg(F0), FDec(1, -1), FDec(-25, -1), FDec(314159, -5), FDec(7, 5), FDec(1, -12),
         FDec(-3, -7), FDec(125, -3)}
Same(x, y) == \/ x = y
              \/ FIsNaN(x) /\ FIsNaN(y)
              \/ FEq(x, y)
Near(x, y) == Same(x, y) \/ FLe(FAbs(FSub(x, y)), FMul(FDec(1, -12), FAdd(FDec(1, -2), FAbs(y))))
CSame(x, y) == Same(x[1], y[1]) /\ Same(x[2], y[2])
Cs == {<<a, b>> : a \in {F0, F1, FDec(-25, -1), FDec(1, -3)}, b \in {F0, FNeg(F2), FDec(314159, -5)}}
Seqs == UNION {[1..n -> {F1, FDec(-25, -1), FDec(1, -1)}] : n \in 1..4}
CSeqs == UNION {[1..n -> {<<F1, F2>>, <<FDec(-25, -1), FDec(1, -1)>>, <<F0, FNeg(F1)>>}] : n \in 1..3}
T(x) == TLCEval(x)
(* n! (x/2)^-n J_n(x) stays of order one for n well above |x|, so compare relative to the first term *)
BesOk(n, x) == LET a == FBesselJ(n, x)  b == RefFBesselJ(n, x)
               IN  FLe(FAbs(FSub(a, b)), FDec(1, -13))

Elementwise ==
    /\ \A x \in Vals, y \in Vals : Same(FMax(x, y), RefFMax(x, y)) /\ Same(FMin(x, y), RefFMin(x, y))
    /\ \A x \in Vals, n \in -4..5 : (n < 0 /\ FEq(x, F0)) \/ Near(FDiv(FPowI(x, n), RefFPowI(x, n)), F1) \/ Same(FPowI(x, n), RefFPowI(x, n))
    /\ \A x \in Vals, y \in Vals, r \in {F0, FDec(1, -3), F1}, a \in {F0, FDec(1, -6), F2} :
            FClose(x, y, r, a) = RefFClose(x, y, r, a)
    /\ \A x \in Vals, y \in Vals, n \in {1, 2, 7} :
            LET u == T(FLinspace(x, y, n))  w == T(RefFLinspace(x, y, n))
            IN  Len(u) = n /\ \A k \in 1..n : Near(FDiv(u[k], F1), w[k])
Folds ==
    \A s \in Seqs :
        /\ Same(FSum(s), RefFSum(s)) /\ Same(FMaxSeq(s), RefFMaxSeq(s)) /\ Same(FMinSeq(s), RefFMinSeq(s))
        /\ Same(FMaxAbs(s), RefFMaxAbs(s))
        /\ \A t \in Seqs : Len(s) = Len(t) => Near(FDot(s, t), RefFDot(s, t))
        /\ \A t \in Seqs, a \in {F0, F2} : FFirstFar(s, t, FDec(1, -3), a) = RefFFirstFar(s, t, FDec(1, -3), a)
Bessel ==
    \A n \in -12..20, x \in {F0, FDec(1, -9), FDec(3, -1), F1, FDec(-15, -1), FDec(38317, -4), FDec(6, 0), FDec(-85, -1)} : BesOk(n, x)
(* strong drives, where the power series cancels: the recurrence in the order, and the two sum rules *)
BesselFar ==
    \A x \in {FDec(12, -1), FI(12), FDec(265, -1), FI(60), FDec(1005, -1)} :
        LET j == TLCEval([n \in 0..240 |-> FBesselJ(n, x)])
        IN  /\ \A n \in 1..60 : FLe(FAbs(FSub(FAdd(j[n - 1], j[n + 1]), FMul(FDiv(FI(2 * n), x), j[n]))), FDec(1, -13))
            /\ FLe(FAbs(FSub(FAdd(FMul(j[0], j[0]), FMul(F2, FSum([n \in 1..240 |-> FMul(j[n], j[n])]))), F1)), FDec(1, -13))
            /\ FLe(FAbs(FSub(FAdd(j[0], FMul(F2, FSum([n \in 1..120 |-> j[2 * n]]))), F1)), FDec(1, -13))
Complexes ==
    /\ \A x \in Cs, y \in Cs :
        /\ CSame(CAdd(x, y), RefCAdd(x, y)) /\ CSame(CSub(x, y), RefCSub(x, y)) /\ CSame(CMul(x, y), RefCMul(x, y))
        /\ (y # C0) => LET q == CDiv(x, y)  r == RefCDiv(x, y) IN Near(q[1], r[1]) /\ Near(q[2], r[2])
        /\ CSame(CNeg(x), RefCNeg(x)) /\ CSame(CConj(x), RefCConj(x)) /\ Near(CAbs(x), RefCAbs(x))
        /\ Same(CArg(x), RefCArg(x))
        /\ \A s \in {F0, F2, FDec(-3, -1)} : CSame(CScale(s, x), RefCScale(s, x)) /\ CSame(CExpJ(s), RefCExpJ(s))
        /\ \A r \in {F0, FDec(1, -1), F2} : CClose(x, y, r, FDec(1, -1)) = RefCClose(x, y, r, FDec(1, -1))
    /\ \A s \in CSeqs : CSame(CSum(s), RefCSum(s))
    /\ \A s \in CSeqs, t \in CSeqs : Len(s) = Len(t) =>
            LET a == CDot(s, t)  b == RefCDot(s, t) IN Near(a[1], b[1]) /\ Near(a[2], b[2])
(* facts about the primitives that need no second implementation *)
Known ==
    /\ FAdd(F1, F1) = F2 /\ FSub(F1, F1) = F0 /\ FDiv(F2, F2) = F1 /\ FMul(F2, FDec(5, -1)) = F1
    /\ FSqrt(FI(49)) = FI(7) /\ FFloor(FDec(-25, -1)) = FI(-3) /\ FRoundHalfEven(FDec(25, -1)) = F2
    /\ FRoundHalfEven(FDec(-35, -1)) = FI(-4) /\ FToInt(FDec(-25, -1)) = -2 /\ FAbs(FI(-3)) = FI(3)
    /\ Near(FExp(F1), FStr("2.718281828459045")) /\ Near(FLog(FI(10)), FStr("2.302585092994046"))
    /\ Near(FSin(F1), FStr("0.8414709848078965")) /\ Near(FCos(F1), FStr("0.5403023058681398"))
    /\ Near(FTanh(F1), FStr("0.7615941559557649")) /\ Near(FSinh(F1), FStr("1.1752011936438014"))
    /\ Near(FAtan2(F1, FNeg(F1)), FStr("2.356194490192345")) /\ Near(FPow(F2, FDec(5, -1)), FSqrt(F2))
    /\ Near(FBesselJ(0, F1), FStr("0.7651976865579666")) /\ Near(FBesselJ(3, FI(2)), FStr("0.1289432494744021"))
    /\ Near(FBesselJ(-1, F2), FStr("-0.5767248077568734"))
    /\ FLe(FAbs(FSub(FBesselJ(0, FI(30)), FStr("-0.086367983581040211"))), FDec(1, -14))
    /\ FLe(FAbs(FSub(FBesselJ(40, FI(50)), FStr("-0.13817628120116143"))), FDec(1, -14))
    /\ FIsNaN(FDiv(F0, F0)) /\ ~FIsFinite(FDiv(F1, F0)) /\ ~FIsNaN(FDiv(F1, F0)) /\ FLt(FNeg(F1), F0) /\ FLe(F0, FNeg(F0))
    /\ FEq(F0, FNeg(F0)) /\ ~FEq(FDiv(F0, F0), FDiv(F0, F0))

Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
Agree == Elementwise /\ Folds /\ Bessel /\ BesselFar /\ Complexes
Facts == Known
=============================================================================
