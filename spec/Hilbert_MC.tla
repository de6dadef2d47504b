----------------------------- MODULE Hilbert_MC -----------------------------
(***************************************************************************)
(* Hilbert, exactly: in the integers modulo a prime P with an N-th root of *)
(* unity w and a square root of -1, the discrete Fourier transform is      *)
(* exact.  For every small input:                                          *)
(*  - the kernel sum is the spectral transform (multiply the k-th          *)
(*    frequency by -i sgn k) of the padded data,                           *)
(*  - padding changes the period, not the definition,                      *)
(*  - linear, odd data give even and even data odd transforms,             *)
(*  - without padding constants vanish and transforming twice negates all  *)
(*    but the mean and, for even N, the alternating part.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Cases, Values           \* <<P, N, L>>: modulus, period, samples

VARIABLES case, x, verdict
vars == <<case, x, verdict>>
P == case[1]
N == case[2]
L == case[3]
M(a) == a % P
RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN 1 ELSE M(a * Power(a, n - 1))
Inv(a) == Power(M(a), P - 2)
w == CHOOSE r \in 1..(P - 1) : Power(r, N) = 1 /\ \A n \in 1..(N - 1) : Power(r, n) # 1
i == CHOOSE r \in 1..(P - 1) : M(r * r) = P - 1
W(n) == Power(w, n % N)

ZSub(a, b) == M(a - b)
ZMul(a, b) == M(a * b)
ZDiv(a, b) == M(a * Inv(b))
RECURSIVE ZSum(_, _)
ZSum(s, k) == IF k = 0 THEN 0 ELSE M(ZSum(s, k - 1) + s[k])
ZDot(s, t) == ZSum([k \in 1..Len(s) |-> M(s[k] * t[k])], Len(s))
(* cot t = i (e^2it + 1)/(e^2it - 1), csc t = 2i/(e^it - e^-it)            *)
ZCot(m, n) == ZMul(i, ZDiv(W(m) + 1, W(m) - 1))
ZAltCsc(m, n) == LET u == W(m * ((N + 1) \div 2)) IN ZDiv(2 * i, u - Inv(u))
H == INSTANCE Hilbert WITH Sub <- ZSub, Mul <- ZMul, Div <- ZDiv, Dot <- ZDot, FromInt <- M, Cot <- ZCot, AltCsc <- ZAltCsc

Sgn(k) == IF k = 0 \/ 2 * k = N THEN 0 ELSE IF 2 * k < N THEN 1 ELSE -1
Fourier(s) == TLCEval([k \in 1..N |-> ZSum([j \in 1..Len(s) |-> M(s[j] * W(-(k - 1) * (j - 1)))], Len(s))])
Spectral(s) == LET f == Fourier(s) IN
    TLCEval([n \in 1..Len(s) |-> ZMul(Inv(N), ZSum([k \in 1..N |-> M(M(-i * Sgn(k - 1)) * M(f[k] * W((k - 1) * (n - 1))))], N))])

Rev(s) == [k \in 1..L |-> s[L + 1 - k]]
Neg(s) == [k \in 1..L |-> M(-s[k])]
Mean == ZMul(ZSum(x, L), Inv(N))
Alt == ZMul(ZSum([k \in 1..L |-> M(IF k % 2 = 1 THEN x[k] ELSE -x[k])], L), Inv(N))
Violated ==
    LET y == TLCEval(H!Transform(x, N))
        e == [k \in 1..L |-> IF k = 1 THEN 1 ELSE 0]
        ye == H!Transform(e, N)
        IsSpectral == y = Spectral(x)
        Linear == H!Transform([k \in 1..L |-> M(3 * x[k] - 2 * e[k])], N) = [k \in 1..L |-> M(3 * y[k] - 2 * ye[k])]
        Parity == H!Transform(Rev(x), N) = Neg(Rev(y))
        Constant == L = N => H!Transform([k \in 1..L |-> 1], N) = [k \in 1..L |-> 0]
        Twice == L = N => H!Transform(y, N) = [k \in 1..L |-> M(Mean - x[k] + IF N % 2 = 1 THEN 0 ELSE IF k % 2 = 1 THEN Alt ELSE -Alt)]
    IN  (IF IsSpectral THEN {} ELSE {"IsSpectral"}) \cup (IF Linear THEN {} ELSE {"Linear"}) \cup (IF Parity THEN {} ELSE {"Parity"})
        \cup (IF Constant THEN {} ELSE {"Constant"}) \cup (IF Twice THEN {} ELSE {"Twice"})
Init == case \in Cases /\ x \in [1..case[3] -> Values] /\ verdict = {"pending"}
Evaluate == verdict = {"pending"} /\ verdict' = Violated /\ UNCHANGED <<case, x>>
Spec == Init /\ [][Evaluate]_vars
NoViolation == verdict \subseteq {"pending"}
QuickCases == {<<17, 8, 4>>, <<17, 4, 4>>, <<17, 16, 4>>, <<13, 3, 3>>, <<41, 5, 4>>, <<41, 5, 5>>, <<13, 12, 4>>, <<61, 15, 5>>}
ThoroughCases == QuickCases \cup {<<17, 8, 8>>, <<29, 7, 7>>, <<37, 9, 6>>, <<13, 6, 6>>, <<41, 20, 5>>, <<61, 10, 7>>}
=============================================================================
