----------------------------- MODULE MTSDA_MC ------------------------------
(***************************************************************************)
(* Exhaustive model check of the MTSDA algebra over small Gaussian         *)
(* integers.  A state is one assignment of Jacobi-Anger spectra to the     *)
(* tones/harmonics of a junction plus a response table; the theorems are   *)
(* what properties Q01-Q04 lift to every input.  They are evaluated in the *)
(* action (so that TLC's workers share the load) and NoViolation is the    *)
(* invariant; `violated` names the theorem.                                *)
(***************************************************************************)
EXTENDS Gauss, FiniteSets, TLC
CONSTANT Big        \* FALSE: the quick alphabet; TRUE: the thorough one

M == INSTANCE MTSDA WITH CZero <- <<0, 0>>, COne <- <<1, 0>>, Plus <- GAdd,
        Times <- GMul, Conj <- GConj, MinusJ <- GMinusJ, RealPart <- GReal, Sum <- GSum

NB == 1
\* Physical spectra: A[0] real, A[-n] = (-1)^n conj(A[n]).
Spectrum(a0, a1) == [k \in -NB..NB |-> IF k = 0 THEN <<a0, 0>> ELSE IF k = 1 THEN a1
                                       ELSE <<-a1[1], a1[2]>>]
Firsts  == IF Big THEN {Spectrum(a0, a1) : a0 \in {1, 2}, a1 \in {<<0, 0>>, <<1, 0>>, <<1, 2>>, <<0, -1>>}}
                  ELSE {Spectrum(a0, a1) : a0 \in {1}, a1 \in {<<0, 0>>, <<1, 2>>, <<0, -1>>}}
Seconds == IF Big THEN Firsts ELSE {Spectrum(a0, a1) : a0 \in {2}, a1 \in {<<0, 0>>, <<-1, 1>>}}
Resps   == {<<<<1, 0>>, <<2, 3>>, <<0, -1>>>>, <<<<0, 2>>, <<-1, 1>>, <<3, 0>>>>}
Tree(r) == [i \in 1..3 |-> [j \in 1..3 |-> r[((i * 2 + j) % 3) + 1]]]

VARIABLES a11, a12, a21, a22, r, violated
vars == <<a11, a12, a21, a22, r, violated>>

Init == /\ a11 \in Firsts /\ a12 \in Seconds /\ a21 \in Firsts /\ a22 \in Seconds
        /\ r \in Resps /\ violated = {"pending"}

Units == {<<0, 1>>, <<-1, 0>>}
RECURSIVE GPow(_, _)
GPow(u, n) == IF n = 0 THEN <<1, 0>> ELSE IF n < 0 THEN GPow(GConj(u), -n) ELSE GMul(u, GPow(u, n - 1))
Turn(C, u) == TLCEval([k \in DOMAIN C |-> GMul(GPow(u, k), C[k])])
Swap(t) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> t[j][i]]])
Idx == [1..2 -> -2..2]
nb2 == <<NB, NB>>

Violated ==
    LET D  == M!Delta(NB)
        T1 == TLCEval(M!ToneSpectrum(<<a11, a12>>, NB))
        T2 == TLCEval(M!ToneSpectrum(<<a21, a22>>, NB))
        C  == <<T1, T2>>
        R  == TLCEval(Tree(r))
        I  == TLCEval([a \in Idx |-> M!Current(C, a, nb2, R)])
        \* I(-a) = conj(I(a)): the spectrum describes a real current.
        ConjugateSymmetry == \A a \in Idx : I[M!NegVec(a)] = GConj(I[a])
        DCReal == I[<<0, 0>>][2] = 0
        \* Swapping the tones swaps the indices and nothing else.
        TonePermutation == LET RS == Swap(R) IN \A a \in Idx :
            M!Current(<<T2, T1>>, <<a[2], a[1]>>, nb2, RS) = I[a]
        \* A tone with no voltage (spectrum = delta) contributes no mixing product and
        \* leaves the products of the other tone equal to the one-tone analysis.
        InertTone == \A a \in Idx :
            M!Current(<<T1, D>>, a, nb2, R) =
                IF a[2] # 0 THEN <<0, 0>>
                ELSE M!Current(<<T1>>, <<a[1]>>, <<NB>>, [i \in 1..3 |-> R[i][NB + 1]])
        \* An unexcited harmonic does not change a tone's spectrum.
        InertHarmonic == M!ToneSpectrum(<<a11, D>>, NB) = a11
        \* Only the second harmonic excited: the same lines at twice the spacing.
        SecondHarmonicOnly ==
            LET W == M!ToneSpectrum(<<M!Delta(2), [k \in -2..2 |-> IF k \in -1..1 THEN a12[k] ELSE <<0, 0>>]>>, 2)
            IN  \A k \in -2..2 : W[k] = IF k % 2 = 0 THEN a12[k \div 2] ELSE <<0, 0>>
        \* Turning tone 1's n-th line by u^n turns I(a) by conj(u)^a1.
        PhaseCovariance == \A u \in Units : LET TU == Turn(T1, u) IN \A a \in Idx :
            M!Current(<<TU, T2>>, a, nb2, R) = GMul(GPow(GConj(u), a[1]), I[a])
    IN  (IF ConjugateSymmetry THEN {} ELSE {"ConjugateSymmetry"})
        \cup (IF DCReal THEN {} ELSE {"DCReal"})
        \cup (IF TonePermutation THEN {} ELSE {"TonePermutation"})
        \cup (IF InertTone THEN {} ELSE {"InertTone"})
        \cup (IF InertHarmonic THEN {} ELSE {"InertHarmonic"})
        \cup (IF SecondHarmonicOnly THEN {} ELSE {"SecondHarmonicOnly"})
        \cup (IF PhaseCovariance THEN {} ELSE {"PhaseCovariance"})

Evaluate == /\ violated = {"pending"}
            /\ violated' = Violated
            /\ UNCHANGED <<a11, a12, a21, a22, r>>
Spec == Init /\ [][Evaluate]_vars
NoViolation == violated \subseteq {"pending"}
=============================================================================
