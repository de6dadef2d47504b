----------------------------- MODULE SignalDefs -----------------------------
(***************************************************************************)
(* Slopes, mirrored convolutions and the discrete Hilbert transform over   *)
(* an abstract number type.  Sequences are 1-based.  Signal_MC checks the  *)
(* theorems exhaustively over small integers; Signal instantiates the same *)
(* definitions over doubles.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Mul(_, _), Sum(_)

(* The two neighbours a centred slope is taken between (one-sided at ends). *)
SlopeIx(i, L) == IF i = 1 THEN <<1, 2>> ELSE IF i = L THEN <<L - 1, L>> ELSE <<i - 1, i + 1>>

(* Index of the sample that stands at position i of the mirrored data: the *)
(* end samples are not repeated.                                           *)
Mirror(i, L) == IF i < 1 THEN 2 - i ELSE IF i > L THEN 2 * L - i ELSE i

(* w: weights for the shifts -s..s in a sequence of length 2s+1.           *)
Side(w) == (Len(w) - 1) \div 2
ConvAt(x, w, i) == LET s == Side(w) IN
    Sum([k \in 1..Len(w) |-> Mul(w[k], x[Mirror(i + s + 1 - k, Len(x))])])
Conv(x, w) == [i \in 1..Len(x) |-> ConvAt(x, w, i)]
=============================================================================
