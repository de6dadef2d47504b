------------------------------- MODULE MTSDA -------------------------------
(***************************************************************************)
(* Multi-tone spectral-domain analysis of an SIS junction, over an         *)
(* abstract algebra of "complex numbers".                                  *)
(*                                                                         *)
(* The same definitions are                                                *)
(*   - model-checked exhaustively over the Gaussian integers               *)
(*     (MTSDA_MC.tla: conjugate symmetry, phase covariance, relabelling,   *)
(*      inert tones), and                                                  *)
(*   - instantiated over IEEE doubles (QT.tla) to judge currents recorded  *)
(*     from qmix.qtcurrent.                                                *)
(*                                                                         *)
(* Tones are 1..nf, harmonics 1..np.  A "spectrum" is a function from      *)
(* -N..N to numbers.  A spectrum per tone is a sequence of spectra.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS CZero, COne, Plus(_, _), Times(_, _), Conj(_), MinusJ(_), RealPart(_), Sum(_)

Delta(N) == [k \in -N..N |-> IF k = 0 THEN COne ELSE CZero]

(* One convolution step: fold harmonic p's Jacobi-Anger spectrum A into the
   spectrum C, all truncated to -N..N.                                      *)
Fold(C, A, p, N) ==
    TLCEval([k \in -N..N |->
        LET ls == {l \in -N..N : k - p * l \in -N..N}
            lo == CHOOSE l \in ls : \A m \in ls : l <= m
            hi == CHOOSE l \in ls : \A m \in ls : m <= l
        IN  Sum([i \in 1..(hi - lo + 1) |-> Times(C[k - p * (lo + i - 1)], A[lo + i - 1])])])

(* The spectrum of one tone whose harmonics have spectra As[1], .., As[np]. *)
RECURSIVE FoldAll(_, _, _, _)
FoldAll(C, As, p, N) == IF p > Len(As) THEN C
                        ELSE FoldAll(Fold(C, As[p], p, N), As, p + 1, N)
ToneSpectrum(As, N) == FoldAll(As[1], As, 2, N)

(* Products C[k] conj(C[k+a]) of one tone; k and k+a limited to -nb..nb.    *)
Weights(C, a, nb) ==
    TLCEval([k \in -nb..nb |-> IF k + a \in -nb..nb THEN Times(C[k], Conj(C[k + a])) ELSE CZero])

(* S_a = sum over all k-vectors of prod_f C_f[k_f] conj(C_f[k_f+a_f]) R[k]. *)
(* R is a tree of sequences: R[k_1+nb_1+1][k_2+nb_2+1]... = response at     *)
(* vb + sum k_f freq_f.                                                     *)
RECURSIVE Contract(_, _, _, _)
Contract(W, nb, f, R) ==
    IF f > Len(W) THEN R
    ELSE Sum([i \in 1..(2 * nb[f] + 1) |->
                 Times(W[f][i - nb[f] - 1], Contract(W, nb, f + 1, R[i]))])

S(C, a, nb, R) == LET W == TLCEval([f \in 1..Len(C) |-> Weights(C[f], a[f], nb[f])])
                  IN  Contract(W, nb, 1, R)

NegVec(a) == [f \in 1..Len(a) |-> -a[f]]
IsZeroVec(a) == \A f \in 1..Len(a) : a[f] = 0

(* The current phasor of the mixing product a (DC when a = 0).              *)
Current(C, a, nb, R) ==
    IF IsZeroVec(a) THEN RealPart(MinusJ(S(C, a, nb, R)))
    ELSE Plus(MinusJ(S(C, a, nb, R)), Conj(MinusJ(S(C, NegVec(a), nb, R))))

(* All index vectors with entries in -np..np.                               *)
IndexVecs(nf, np) == [1..nf -> -np..np]

RECURSIVE DotFrom(_, _, _)
DotFrom(a, f, i) == IF i > Len(f) THEN 0 ELSE a[i] * f[i] + DotFrom(a, f, i + 1)
Dot(a, f) == DotFrom(a, f, 1)

(* The mixing products that land on the requested frequency q.  Key maps a  *)
(* frequency to what the implementation compares (its rounding).            *)
Products(nf, np, freq, q, Key(_)) ==
    {a \in IndexVecs(nf, np) : Key(Dot(a, freq)) = Key(q)}

=============================================================================
