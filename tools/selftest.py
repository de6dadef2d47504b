#!/usr/bin/env python3
"""Write spec/SelfTest.tla: the reference definitions of the derived operators of Float64.tla and
Complex.tla under new names (so that no Java override applies), compared with the overridden ones."""
import re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f64 = open(here + '/spec/Float64.tla').read()
cpl = open(here + '/spec/Complex.tla').read()
d1 = f64.split('overridden for speed, see SelfTest).    *)', 1)[1].split('=====')[0]
d2 = cpl.split('EXTENDS Float64', 1)[1].split('=====')[0]
body = d1 + d2
names = re.findall(r'^([A-Z][A-Za-z0-9]*)(?:\([^)]*\))? ==', body, re.M)
names = sorted(set(names), key=len, reverse=True)
prim = 'F0 F1 F2'.split()
for n in names:
    body = re.sub(r'\b%s\b' % n, 'Ref' + n, body)
out = '''------------------------------ MODULE SelfTest ------------------------------
(* Written by tools/selftest.py: every derived operator of Float64 and Complex that Java overrides,
   compared with its TLA+ definition (here under the name RefX) on a grid of values. *)
EXTENDS Complex, TLC
''' + body + '''
(***************************************************************************)
VARIABLE done
Vals == {F0, F1, F2, FNeg(F1), FNeg(F0), FDec(1, -1), FDec(-25, -1), FDec(314159, -5), FDec(7, 5), FDec(1, -12),
         FDec(-3, -7), FDec(125, -3)}
Same(x, y) == \\/ x = y
              \\/ FIsNaN(x) /\\ FIsNaN(y)
              \\/ FEq(x, y)
Near(x, y) == Same(x, y) \\/ FLe(FAbs(FSub(x, y)), FMul(FDec(1, -12), FAdd(FDec(1, -2), FAbs(y))))
CSame(x, y) == Same(x[1], y[1]) /\\ Same(x[2], y[2])
Cs == {<<a, b>> : a \\in {F0, F1, FDec(-25, -1), FDec(1, -3)}, b \\in {F0, FNeg(F2), FDec(314159, -5)}}
Seqs == UNION {[1..n -> {F1, FDec(-25, -1), FDec(1, -1)}] : n \\in 1..4}
CSeqs == UNION {[1..n -> {<<F1, F2>>, <<FDec(-25, -1), FDec(1, -1)>>, <<F0, FNeg(F1)>>}] : n \\in 1..3}
T(x) == TLCEval(x)
(* n! (x/2)^-n J_n(x) stays of order one for n well above |x|, so compare relative to the first term *)
BesOk(n, x) == LET a == FBesselJ(n, x)  b == RefFBesselJ(n, x)
               IN  FLe(FAbs(FSub(a, b)), FDec(1, -13))

Elementwise ==
    /\\ \\A x \\in Vals, y \\in Vals : Same(FMax(x, y), RefFMax(x, y)) /\\ Same(FMin(x, y), RefFMin(x, y))
    /\\ \\A x \\in Vals, n \\in -4..5 : (n < 0 /\\ FEq(x, F0)) \\/ Near(FDiv(FPowI(x, n), RefFPowI(x, n)), F1) \\/ Same(FPowI(x, n), RefFPowI(x, n))
    /\\ \\A x \\in Vals, y \\in Vals, r \\in {F0, FDec(1, -3), F1}, a \\in {F0, FDec(1, -6), F2} :
            FClose(x, y, r, a) = RefFClose(x, y, r, a)
    /\\ \\A x \\in Vals, y \\in Vals, n \\in {1, 2, 7} :
            LET u == T(FLinspace(x, y, n))  w == T(RefFLinspace(x, y, n))
            IN  Len(u) = n /\\ \\A k \\in 1..n : Near(FDiv(u[k], F1), w[k])
Folds ==
    \\A s \\in Seqs :
        /\\ Same(FSum(s), RefFSum(s)) /\\ Same(FMaxSeq(s), RefFMaxSeq(s)) /\\ Same(FMinSeq(s), RefFMinSeq(s))
        /\\ Same(FMaxAbs(s), RefFMaxAbs(s))
        /\\ \\A t \\in Seqs : Len(s) = Len(t) => Near(FDot(s, t), RefFDot(s, t))
        /\\ \\A t \\in Seqs, a \\in {F0, F2} : FFirstFar(s, t, FDec(1, -3), a) = RefFFirstFar(s, t, FDec(1, -3), a)
Bessel ==
    \\A n \\in -12..20, x \\in {F0, FDec(1, -9), FDec(3, -1), F1, FDec(-15, -1), FDec(38317, -4), FDec(6, 0), FDec(-85, -1)} : BesOk(n, x)
Complexes ==
    /\\ \\A x \\in Cs, y \\in Cs :
        /\\ CSame(CAdd(x, y), RefCAdd(x, y)) /\\ CSame(CSub(x, y), RefCSub(x, y)) /\\ CSame(CMul(x, y), RefCMul(x, y))
        /\\ (y # C0) => LET q == CDiv(x, y)  r == RefCDiv(x, y) IN Near(q[1], r[1]) /\\ Near(q[2], r[2])
        /\\ CSame(CNeg(x), RefCNeg(x)) /\\ CSame(CConj(x), RefCConj(x)) /\\ Near(CAbs(x), RefCAbs(x))
        /\\ Same(CArg(x), RefCArg(x))
        /\\ \\A s \\in {F0, F2, FDec(-3, -1)} : CSame(CScale(s, x), RefCScale(s, x)) /\\ CSame(CExpJ(s), RefCExpJ(s))
        /\\ \\A r \\in {F0, FDec(1, -1), F2} : CClose(x, y, r, FDec(1, -1)) = RefCClose(x, y, r, FDec(1, -1))
    /\\ \\A s \\in CSeqs : CSame(CSum(s), RefCSum(s))
    /\\ \\A s \\in CSeqs, t \\in CSeqs : Len(s) = Len(t) =>
            LET a == CDot(s, t)  b == RefCDot(s, t) IN Near(a[1], b[1]) /\\ Near(a[2], b[2])
(* facts about the primitives that need no second implementation *)
Known ==
    /\\ FAdd(F1, F1) = F2 /\\ FSub(F1, F1) = F0 /\\ FDiv(F2, F2) = F1 /\\ FMul(F2, FDec(5, -1)) = F1
    /\\ FSqrt(FI(49)) = FI(7) /\\ FFloor(FDec(-25, -1)) = FI(-3) /\\ FRoundHalfEven(FDec(25, -1)) = F2
    /\\ FRoundHalfEven(FDec(-35, -1)) = FI(-4) /\\ FToInt(FDec(-25, -1)) = -2 /\\ FAbs(FI(-3)) = FI(3)
    /\\ Near(FExp(F1), FStr("2.718281828459045")) /\\ Near(FLog(FI(10)), FStr("2.302585092994046"))
    /\\ Near(FSin(F1), FStr("0.8414709848078965")) /\\ Near(FCos(F1), FStr("0.5403023058681398"))
    /\\ Near(FTanh(F1), FStr("0.7615941559557649")) /\\ Near(FSinh(F1), FStr("1.1752011936438014"))
    /\\ Near(FAtan2(F1, FNeg(F1)), FStr("2.356194490192345")) /\\ Near(FPow(F2, FDec(5, -1)), FSqrt(F2))
    /\\ Near(FBesselJ(0, F1), FStr("0.7651976865579666")) /\\ Near(FBesselJ(3, FI(2)), FStr("0.1289432494744021"))
    /\\ Near(FBesselJ(-1, F2), FStr("-0.5767248077568734"))
    /\\ FIsNaN(FDiv(F0, F0)) /\\ ~FIsFinite(FDiv(F1, F0)) /\\ ~FIsNaN(FDiv(F1, F0)) /\\ FLt(FNeg(F1), F0) /\\ FLe(F0, FNeg(F0))
    /\\ FEq(F0, FNeg(F0)) /\\ ~FEq(FDiv(F0, F0), FDiv(F0, F0))

Init == done = FALSE
Next == ~done /\\ done' = TRUE
Spec == Init /\\ [][Next]_done
Agree == Elementwise /\\ Folds /\\ Bessel /\\ Complexes
Facts == Known
=============================================================================
'''
open(here + '/spec/SelfTest.tla', 'w').write(out)
