------------------------------ MODULE Float64 ------------------------------
(***************************************************************************)
(* IEEE-754 doubles for TLC.                                               *)
(*                                                                         *)
(* A double is the pair <<hi, lo>> of the signed 32-bit halves of its bit  *)
(* pattern.  The primitive operators below have no TLA+ body of interest:  *)
(* java/Float64.java overrides each with the one IEEE operation it names   *)
(* (trusted).  The derived operators (FSum, FDot, FBesselJ, ...) have a    *)
(* TLA+ definition *and* an override that exists for speed only;           *)
(* SelfTest.tla checks that both agree.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Prim == CHOOSE x : x = <<0, 0>>        \* body of a primitive: never evaluated

FAdd(x, y) == Prim
FSub(x, y) == Prim
FMul(x, y) == Prim
FDiv(x, y) == Prim
FPow(x, y) == Prim
FNeg(x) == Prim
FAbs(x) == Prim
FSqrt(x) == Prim
FSin(x) == Prim
FCos(x) == Prim
FExp(x) == Prim
FLog(x) == Prim
FTanh(x) == Prim
FSinh(x) == Prim
FAtan2(y, x) == Prim
FFloor(x) == Prim
FRoundHalfEven(x) == Prim
FLt(x, y) == FALSE
FLe(x, y) == FALSE
FEq(x, y) == FALSE
FIsNaN(x) == FALSE
FIsFinite(x) == TRUE
FI(n) == Prim                          \* the integer n as a double
FDec(n, e) == Prim                     \* n * 10^e, correctly rounded
FStr(s) == Prim                        \* decimal literal
FShow(x) == ""                         \* printing
FToInt(x) == 0                         \* truncation

F0 == <<0, 0>>
F1 == <<1072693248, 0>>
F2 == <<1073741824, 0>>

---------------------------------------------------------------------------
(* Derived: reference definitions (overridden for speed, see SelfTest).    *)

FMax(x, y) == IF FIsNaN(x) \/ FIsNaN(y) THEN FDiv(F0, F0) ELSE IF FLt(x, y) THEN y ELSE x
FMin(x, y) == IF FIsNaN(x) \/ FIsNaN(y) THEN FDiv(F0, F0) ELSE IF FLt(x, y) THEN x ELSE y

RECURSIVE FPowI(_, _)
FPowI(x, n) == IF n = 0 THEN F1
               ELSE IF n < 0 THEN FDiv(F1, FPowI(x, -n))
               ELSE FMul(FPowI(x, n - 1), x)

RECURSIVE FSumTo(_, _)
FSumTo(s, k) == IF k = 0 THEN F0 ELSE FAdd(FSumTo(s, k - 1), s[k])
FSum(s) == FSumTo(s, Len(s))

RECURSIVE FDotTo(_, _, _)
FDotTo(s, t, k) == IF k = 0 THEN F0
                   ELSE FAdd(FDotTo(s, t, k - 1), FMul(s[k], t[k]))
FDot(s, t) == FDotTo(s, t, Len(s))

RECURSIVE FMaxTo(_, _), FMinTo(_, _)
FMaxTo(s, k) == IF k = 1 THEN s[1] ELSE FMax(FMaxTo(s, k - 1), s[k])
FMinTo(s, k) == IF k = 1 THEN s[1] ELSE FMin(FMinTo(s, k - 1), s[k])
FMaxSeq(s) == FMaxTo(s, Len(s))
FMinSeq(s) == FMinTo(s, Len(s))
FMaxAbs(s) == FMaxSeq([k \in 1..Len(s) |-> FAbs(s[k])])

FClose(x, y, rtol, atol) ==
    FEq(x, y) \/ FLe(FAbs(FSub(x, y)), FAdd(atol, FMul(rtol, FAbs(y))))

FFirstFar(s, t, rtol, atol) ==
    IF Len(s) # Len(t) THEN -1
    ELSE LET far == {k \in 1..Len(s) : ~FClose(s[k], t[k], rtol, atol)}
         IN  IF far = {} THEN 0 ELSE CHOOSE k \in far : \A j \in far : k <= j

FLinspace(a, z, n) ==
    [k \in 1..n |-> IF n = 1 THEN a ELSE IF k = n THEN z
                    ELSE FAdd(a, FDiv(FMul(FSub(z, a), FI(k - 1)), FI(n - 1)))]

(* J_n(x) = sum_k (-1)^k (x/2)^(2k+n) / (k! (n+k)!), truncated at K terms. *)
RECURSIVE BesTerm0(_, _, _), BesSum(_, _, _, _, _)
BesTerm0(h, n, k) == IF k = 0 THEN F1
                     ELSE FMul(BesTerm0(h, n, k - 1), FDiv(h, FI(k)))
BesSum(h, n, k, t, acc) ==
    IF k = 60 THEN acc
    ELSE BesSum(h, n, k + 1,
                FMul(t, FDiv(FNeg(FMul(h, h)), FMul(FI(k + 1), FI(n + k + 1)))),
                FAdd(acc, t))
FBesselJ(n, x) ==
    IF n < 0
    THEN LET h == FDiv(x, F2)
             r == BesSum(h, -n, 0, BesTerm0(h, -n, -n), F0)
         IN  IF (-n) % 2 = 0 THEN r ELSE FNeg(r)
    ELSE LET h == FDiv(x, F2) IN BesSum(h, n, 0, BesTerm0(h, n, n), F0)
=============================================================================
