------------------------------- MODULE Import -------------------------------
(***************************************************************************)
(* How a measured curve becomes a normalised one: the import pipeline over *)
(* doubles, one operator per stage                                         *)
(*   recorded -> units -> complete samples -> one pass -> sorted ->        *)
(*   distinct -> multiplied -> offset removed -> filtered -> series        *)
(*   resistance removed -> normalised -> resampled                         *)
(* A curve is [v |-> sequence, i |-> sequence]; o is the record of options.*)
(***************************************************************************)
EXTENDS Signal
Apart(a, b) == FAbs(FSub(a, b))
R == INSTANCE Recording WITH Lt <- FLt, Dist <- Apart, Same <- FEq, Missing <- FIsNaN
OP == INSTANCE OnePass WITH Lt <- FLt, Dist <- Apart
YF == INSTANCE YFactor WITH Sub <- FSub, Mul <- FMul, Div <- FDiv, One <- F1

VUnit(u) == CASE u = "uV" -> FDec(1, -6) [] u = "mV" -> FDec(1, -3) [] u = "V" -> F1
IUnit(u) == CASE u = "uA" -> FDec(1, -6) [] u = "mA" -> FDec(1, -3) [] u = "A" -> F1

Pick(s, ix) == TLCEval([k \in 1..Len(ix) |-> s[ix[k]]])
At(c, ix) == [v |-> Pick(c.v, ix), i |-> Pick(c.i, ix)]
All(s) == [k \in 1..Len(s) |-> k]
Map1(s, f(_)) == TLCEval([k \in 1..Len(s) |-> f(s[k])])
Map2(s, t, f(_, _)) == TLCEval([k \in 1..Len(s) |-> f(s[k], t[k])])

Units(c, o) == [v |-> Map1(c.v, LAMBDA x : FMul(x, VUnit(o.vfmt))), i |-> Map1(c.i, LAMBDA x : FMul(x, IUnit(o.ifmt)))]
Complete(c) == R!Complete(c)
Sort(c) == R!Sort(c)
Distinct(c) == R!Distinct(c)
Load(raw, o) == R!Curve(Units(raw, o))
Scale(c, o) == [v |-> Map1(c.v, LAMBDA x : FMul(x, o.vmul)), i |-> Map1(c.i, LAMBDA x : FMul(x, o.imul))]
Shift(c, vo, io) == [v |-> Map1(c.v, LAMBDA x : FSub(x, vo)), i |-> Map1(c.i, LAMBDA x : FSub(x, io))]
Series(c, o) == IF ~o.rs.is THEN c
                ELSE [v |-> Map2(c.v, c.i, LAMBDA x, y : FSub(x, FMul(y, o.rs.ohm))), i |-> c.i]

(* Linear interpolation of (x, y), x increasing, at t; outside: the given  *)
(* values.                                                                 *)
RECURSIVE Seg(_, _, _, _)
Seg(x, t, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF FLe(x[m], t) THEN Seg(x, t, m, hi) ELSE Seg(x, t, lo, m)
InterpAt(x, y, t, left, right) ==
    LET n == Len(x) IN
    IF FLt(t, x[1]) THEN left ELSE IF FLt(x[n], t) THEN right
    ELSE IF n = 1 THEN y[1]
    ELSE LET k == Seg(x, t, 1, n)
         IN  FAdd(y[k], FMul(FDiv(FSub(y[k + 1], y[k]), FSub(x[k + 1], x[k])), FSub(t, x[k])))
Interp(x, y, ts, left, right) == TLCEval([k \in 1..Len(ts) |-> InterpAt(x, y, ts[k], left, right)])
Hold(x, y, ts) == Interp(x, y, ts, y[1], y[Len(y)])
Increasing(x) == \A k \in 1..(Len(x) - 1) : FLt(x[k], x[k + 1])

(***************************************************************************)
(* Savitzky-Golay: fit a polynomial of order p to the 2m+1 samples of a    *)
(* window and evaluate it at offset t (0 except at the ends), by Gram      *)
(* polynomials.                                                            *)
(***************************************************************************)
RECURSIVE Gram(_, _, _)
Gram(j, i, m) ==
    IF j < 0 THEN F0 ELSE IF j = 0 THEN F1
    ELSE FSub(FMul(FDiv(FI(2 * (2 * j - 1) * i), FI(j * (2 * m - j + 1))), Gram(j - 1, i, m)),
              FMul(FDiv(FI((j - 1) * (2 * m + j)), FI(j * (2 * m - j + 1))), Gram(j - 2, i, m)))
RECURSIVE Falling(_, _)
Falling(a, b) == IF b = 0 THEN F1 ELSE FMul(FI(a), Falling(a - 1, b - 1))
SGWeights(t, m, p) == TLCEval([k \in 1..(2 * m + 1) |->
    FSum([j \in 1..(p + 1) |-> LET d == j - 1 IN
          FMul(FMul(FI(2 * d + 1), FDiv(Falling(2 * m, d), Falling(2 * m + d + 1, d + 1))),
               FMul(Gram(d, k - m - 1, m), Gram(d, t, m)))])])
SavGol(y, nwind, p) ==
    LET m == (nwind - 1) \div 2
        n == Len(y)
        mid == SGWeights(0, m, p)
        win(c) == [k \in 1..nwind |-> y[c - m - 1 + k]]
    IN  TLCEval([k \in 1..n |->
            IF k <= m THEN FDot(SGWeights(k - m - 1, m, p), win(m + 1))
            ELSE IF k > n - m THEN FDot(SGWeights(k - (n - m), m, p), win(n - m))
            ELSE FDot(mid, win(k))])

(* Filtering of an I-V curve: normalised to its largest values, rotated,   *)
(* resampled evenly, smoothed, rotated back, resampled evenly.             *)
RotX(x, y, th) == FSub(FMul(FCos(th), x), FMul(FSin(th), y))
RotY(x, y, th) == FAdd(FMul(FSin(th), x), FMul(FCos(th), y))
Rotated(c, th) == [v |-> Map2(c.v, c.i, LAMBDA x, y : RotX(x, y, th)), i |-> Map2(c.v, c.i, LAMBDA x, y : RotY(x, y, th))]
Resampled(c, n) == LET x == TLCEval(FLinspace(FMinSeq(c.v), FMaxSeq(c.v), n)) IN [v |-> x, i |-> Hold(c.v, c.i, x)]
Filter(c, o) ==
    LET vm == FMaxSeq(c.v)
        im == FMaxSeq(c.i)
        nrm == [v |-> Map1(c.v, LAMBDA x : FDiv(x, vm)), i |-> Map1(c.i, LAMBDA x : FDiv(x, im))]
        a == Rotated(nrm, FNeg(o.theta))
        b == Resampled(a, o.npts)
        s == [v |-> b.v, i |-> SavGol(b.i, o.nwind, o.npoly)]
        d == Rotated(s, o.theta)
        e == Resampled(d, o.npts)
    IN  [ok |-> Increasing(a.v) /\ Increasing(d.v),          \* otherwise the curve is not a function of voltage
         c |-> [v |-> Map1(e.v, LAMBDA x : FMul(x, vm)), i |-> Map1(e.i, LAMBDA x : FMul(x, im))]]
Filtered(c, o) == IF o.filter THEN Filter(c, o) ELSE [ok |-> TRUE, c |-> c]

(* Least-squares line through the samples strictly between a and b:        *)
(* <<slope, intercept>>                                                    *)
LineFit(x, y) ==
    LET n == FI(Len(x))
        mx == FDiv(FSum(x), n)
        my == FDiv(FSum(y), n)
        dx == Map1(x, LAMBDA t : FSub(t, mx))
        dy == Map1(y, LAMBDA t : FSub(t, my))
        s == FDiv(FDot(dx, dy), FDot(dx, dx))
    IN  <<s, FSub(my, FMul(s, mx))>>
Between(x, a, b) == SelectSeq(All(x), LAMBDA k : FLt(a, x[k]) /\ FLt(x[k], b))
FitBetween(c, a, b) == LET ix == Between(c.v, a, b) IN LineFit(Pick(c.v, ix), Pick(c.i, ix))

ECHARGE == FStr("1.602176634e-19")
HPLANCK == FStr("6.62607015e-34")
KBOLTZ == FStr("1.380649e-23")
=============================================================================
