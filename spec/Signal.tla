------------------------------- MODULE Signal -------------------------------
(* SignalDefs over doubles, Gaussian windows and the discrete Hilbert      *)
(* transform.                                                              *)
EXTENDS Complex, TLC
D == INSTANCE SignalDefs WITH Mul <- FMul, Sum <- FSum

PI == FStr("3.141592653589793")
SlopeAt(x, y, i) == LET p == D!SlopeIx(i, Len(x))
                    IN  FDiv(FSub(y[p[2]], y[p[1]]), FSub(x[p[2]], x[p[1]]))
SlopeSeq(x, y) == TLCEval([i \in 1..Len(x) |-> SlopeAt(x, y, i)])

(* Gaussian window of width sigma (in samples) truncated at ext widths;    *)
(* windows are kept away from ties of ext*sigma with an integer by more    *)
(* than the implementation's guard (1e-5).                                 *)
HalfWidth(sigma, ext) == FToInt(FFloor(FAdd(FMul(ext, sigma), FDec(1, -5))))
Gaussian(sigma, ext) ==
    LET s == HalfWidth(sigma, ext)
        raw == TLCEval([k \in 1..(2 * s + 1) |->
                  LET z == FDiv(FI(k - s - 1), sigma) IN FExp(FMul(FDec(-5, -1), FMul(z, z)))])
        t == FSum(raw)
    IN  TLCEval([k \in 1..(2 * s + 1) |-> FDiv(raw[k], t)])
(* the window is symmetric, so correlating is convolving *)
SmoothAt(x, w, i) == LET s == D!Side(w) IN
    FDot(w, [k \in 1..Len(w) |-> x[D!Mirror(i - s - 1 + k, Len(x))]])
SmoothSeq(x, w) == TLCEval([i \in 1..Len(x) |-> SmoothAt(x, w, i)])

(* The discrete Hilbert transform                                          *)
CotHalf(m, N) == LET t == FDiv(FMul(PI, FI(m)), FI(N)) IN FDiv(FCos(t), FSin(t))
AltCscHalf(m, N) == LET t == FDiv(FMul(PI, FI(m)), FI(N)) IN FDiv(IF m % 2 = 0 THEN F1 ELSE FNeg(F1), FSin(t))
HT == INSTANCE Hilbert WITH Sub <- FSub, Mul <- FMul, Div <- FDiv, Dot <- FDot, FromInt <- FI, Cot <- CotHalf, AltCsc <- AltCscHalf
HilbertTable(L, N) == HT!Table(L, N)
HilbertAt(x, tab, k) == HT!At(x, tab, k)
(* Kramers-Kronig transform of (v, i) on an even grid, padded n-fold.      *)
KKSeq(v, i, n) ==
    LET L == Len(v)
        x == TLCEval([k \in 1..L |-> FSub(v[k], i[k])])
        tab == HilbertTable(L, L * n)
    IN  TLCEval([k \in 1..L |-> HilbertAt(x, tab, k)])
=============================================================================
