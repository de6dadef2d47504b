------------------------------ MODULE Complex ------------------------------
(***************************************************************************)
(* Complex numbers <<re, im>> over Float64.  Every operator has its TLA+   *)
(* definition here; java/Complex.java overrides them for speed and         *)
(* SelfTest.tla checks override = definition on a grid of values.          *)
(***************************************************************************)
EXTENDS Float64

C0 == <<F0, F0>>
C1 == <<F1, F0>>
CJ == <<F0, F1>>
Re(x) == x[1]
Im(x) == x[2]
CR(r) == <<r, F0>>

CAdd(x, y) == <<FAdd(x[1], y[1]), FAdd(x[2], y[2])>>
CSub(x, y) == <<FSub(x[1], y[1]), FSub(x[2], y[2])>>
CMul(x, y) == <<FSub(FMul(x[1], y[1]), FMul(x[2], y[2])),
                FAdd(FMul(x[1], y[2]), FMul(x[2], y[1]))>>
CDiv(x, y) == LET n == FAdd(FMul(y[1], y[1]), FMul(y[2], y[2]))
              IN  <<FDiv(FAdd(FMul(x[1], y[1]), FMul(x[2], y[2])), n),
                    FDiv(FSub(FMul(x[2], y[1]), FMul(x[1], y[2])), n)>>
CNeg(x) == <<FNeg(x[1]), FNeg(x[2])>>
CConj(x) == <<x[1], FNeg(x[2])>>
CScale(s, x) == <<FMul(s, x[1]), FMul(s, x[2])>>
CAbs(x) == FSqrt(FAdd(FMul(x[1], x[1]), FMul(x[2], x[2])))
CArg(x) == FAtan2(x[2], x[1])
CExpJ(t) == <<FCos(t), FSin(t)>>

RECURSIVE CSumTo(_, _)
CSumTo(s, k) == IF k = 0 THEN C0 ELSE CAdd(CSumTo(s, k - 1), s[k])
CSum(s) == CSumTo(s, Len(s))
CDot(s, t) == CSum([k \in 1..Len(s) |-> CMul(s[k], t[k])])

CClose(x, y, rtol, atol) ==
    FLe(CAbs(CSub(x, y)), FAdd(atol, FMul(rtol, CAbs(y))))
CFinite(x) == FIsFinite(x[1]) /\ FIsFinite(x[2])
=============================================================================
