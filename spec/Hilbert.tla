------------------------------ MODULE Hilbert -------------------------------
(***************************************************************************)
(* The discrete Hilbert transform of L samples zero-padded to N, over an   *)
(* abstract field: y[k] = sum_j x[j] h[k - j].  Cot(m, N) stands for       *)
(* cot(pi m / N), AltCsc(m, N) for (-1)^m / sin(pi m / N).                 *)
(* Hilbert_MC proves the kernel against the spectral definition in finite  *)
(* fields; Signal instantiates the same definitions over doubles.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sub(_, _), Mul(_, _), Div(_, _), Dot(_, _), FromInt(_), Cot(_, _), AltCsc(_, _)

Kernel(m, N) ==
    IF m = 0 THEN FromInt(0)
    ELSE IF N % 2 = 0 THEN (IF m % 2 = 0 THEN FromInt(0) ELSE Mul(Div(FromInt(2), FromInt(N)), Cot(m, N)))
    ELSE Div(Sub(Cot(m, N), AltCsc(m, N)), FromInt(N))
(* kernel values for m = -(L-1)..(L-1) as a sequence *)
Table(L, N) == TLCEval([k \in 1..(2 * L - 1) |-> Kernel(k - L, N)])
At(x, tab, k) == LET L == Len(x) IN Dot(x, [j \in 1..L |-> tab[k - j + L]])
Transform(x, N) == LET tab == Table(Len(x), N) IN TLCEval([k \in 1..Len(x) |-> At(x, tab, k)])
=============================================================================
