------------------------------- MODULE Gauss -------------------------------
(* Gaussian integers <<re, im>>: the small exact ring MTSDA_MC runs over.   *)
EXTENDS Integers, Sequences
GAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
GMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
GConj(x) == <<x[1], -x[2]>>
GMinusJ(x) == <<x[2], -x[1]>>          \* -j (re + j im) = im - j re
GReal(x) == <<x[1], 0>>
RECURSIVE GSumTo(_, _)
GSumTo(s, k) == IF k = 0 THEN <<0, 0>> ELSE GAdd(GSumTo(s, k - 1), s[k])
GSum(s) == GSumTo(s, Len(s))
=============================================================================
