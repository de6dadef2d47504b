----------------------------- MODULE Signal_MC ------------------------------
(***************************************************************************)
(* Theorems of SignalDefs over all short integer sequences.  A slope is    *)
(* kept as rise over run and compared by cross multiplication.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Big

IMul(a, b) == a * b
RECURSIVE ISumTo(_, _)
ISumTo(s, k) == IF k = 0 THEN 0 ELSE ISumTo(s, k - 1) + s[k]
ISum(s) == ISumTo(s, Len(s))
S == INSTANCE SignalDefs WITH Mul <- IMul, Sum <- ISum

L == IF Big THEN 6 ELSE 5
Vals == {-1, 0, 2}
Kernels == {<<1>>, <<1, 2, 1>>, <<0, 3, 0>>, <<2, 1, 2>>, <<1, 2, 3, 2, 1>>, <<0, 1, 4, 1, 0>>}
Steps == {1, 2}

VARIABLES x, y, w, gaps, violated
vars == <<x, y, w, gaps, violated>>
Init == /\ x \in [1..L -> Vals] /\ y \in {[i \in 1..L |-> IF i = j THEN 1 ELSE 0] : j \in 1..L}
        /\ w \in {k \in Kernels : Len(k) <= L} /\ gaps \in [1..(L - 1) -> Steps]
        /\ (~Big => \A i \in 1..(L - 2) : i # 2 => gaps[i] = 1)
        /\ violated = {"pending"}

Rev(s) == [i \in 1..L |-> s[L + 1 - i]]
RECURSIVE Pos(_)
Pos(i) == IF i = 1 THEN 0 ELSE Pos(i - 1) + gaps[i - 1]
Grid == [i \in 1..L |-> Pos(i)]
Rise(g, s, i) == LET p == S!SlopeIx(i, L) IN s[p[2]] - s[p[1]]
Run(g, i) == LET p == S!SlopeIx(i, L) IN g[p[2]] - g[p[1]]

Violated ==
    LET g == TLCEval(Grid)
        total == ISum(w)
        cx == TLCEval(S!Conv(x, w))
        cy == TLCEval(S!Conv(y, w))
        s == S!Side(w)
        Even == \A i \in 1..(L - 1) : gaps[i] = 1
        Constants == S!Conv([i \in 1..L |-> 7], w) = [i \in 1..L |-> 7 * total]
        Lines == LET c == S!Conv([i \in 1..L |-> 3 * i - 1], w)
                 IN  \A i \in (s + 1)..(L - s) : c[i] = total * (3 * i - 1)
        Reversal == S!Conv(Rev(x), w) = Rev(cx)
        Linear == S!Conv([i \in 1..L |-> 2 * x[i] - 3 * y[i]], w) = [i \in 1..L |-> 2 * cx[i] - 3 * cy[i]]
        Impulse == \A j \in (2 * s + 1)..(L - 2 * s) : y[j] = 1 =>
                      \A i \in 1..L : cy[i] = IF i - j + s + 1 \in 1..Len(w) THEN w[i - j + s + 1] ELSE 0
        SlopeOfLine == \A i \in 1..L : Rise(g, [k \in 1..L |-> 5 * g[k] - 4], i) = 5 * Run(g, i)
        SlopeOfParabola == Even => \A i \in 2..(L - 1) :
                      Rise(g, [k \in 1..L |-> g[k] * g[k]], i) = 2 * g[i] * Run(g, i)
        SlopeShift == \A i \in 1..L : Rise(g, [k \in 1..L |-> x[k] + 9], i) = Rise(g, x, i)
        SlopeReverse == \A i \in 1..L : Rise(g, Rev(x), i) = -Rise(g, x, L + 1 - i)
    IN  (IF Constants THEN {} ELSE {"Constants"}) \cup (IF Lines THEN {} ELSE {"Lines"})
        \cup (IF Reversal THEN {} ELSE {"Reversal"}) \cup (IF Linear THEN {} ELSE {"Linear"})
        \cup (IF Impulse THEN {} ELSE {"Impulse"}) \cup (IF SlopeOfLine THEN {} ELSE {"SlopeOfLine"})
        \cup (IF SlopeOfParabola THEN {} ELSE {"SlopeOfParabola"})
        \cup (IF SlopeShift THEN {} ELSE {"SlopeShift"})
        \cup (IF SlopeReverse THEN {} ELSE {"SlopeReverse"})
Evaluate == violated = {"pending"} /\ violated' = Violated /\ UNCHANGED <<x, y, w, gaps>>
Spec == Init /\ [][Evaluate]_vars
NoViolation == violated \subseteq {"pending"}
=============================================================================
