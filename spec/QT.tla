-------------------------------- MODULE QT ---------------------------------
(***************************************************************************)
(* The quasiparticle tunnelling current over IEEE doubles: MTSDA           *)
(* instantiated at Complex, plus the Jacobi-Anger spectra of a drive and   *)
(* the response trees of the response functions the harness uses.          *)
(*                                                                         *)
(* A "setup" record u has: nf, np, npts, nb (limit per tone), nmax (the    *)
(* common array limit), f (tone frequencies, integers in 1e-7 of the gap   *)
(* frequency), vj[f][p][i] (complex junction voltage), vb[i], resp.        *)
(***************************************************************************)
EXTENDS Complex, FiniteSets, TLC

ReC(x) == <<x[1], F0>>
MJ(x) == <<x[2], FNeg(x[1])>>
M == INSTANCE MTSDA WITH CZero <- C0, COne <- C1, Plus <- CAdd, Times <- CMul,
        Conj <- CConj, MinusJ <- MJ, RealPart <- ReC, Sum <- CSum

FUNIT == FI(10000000)
Freq(n) == FDiv(FI(n), FUNIT)

(* Frequencies are compared after rounding to four decimals; the harness    *)
(* keeps every mixing product away from rounding ties.                      *)
Key4(n) == IF n >= 0 THEN (n + 500) \div 1000 ELSE -((500 - n) \div 1000)

(* Jacobi-Anger: exp(-j alpha sin(.. + phi)) = sum_n J_n(alpha) e^{-jn phi} *)
JacobiAnger(v, p, f, nbf, nmax) ==
    LET alpha == FDiv(CAbs(v), FMul(FI(p), f))
        phi == CArg(v)
        pos == TLCEval([n \in 1..nbf |-> CScale(FBesselJ(n, alpha), CExpJ(FMul(FI(-n), phi)))])
    IN  TLCEval([n \in -nmax..nmax |->
            IF n = 0 THEN CR(FBesselJ(0, alpha))
            ELSE IF n > 0 THEN (IF n <= nbf THEN pos[n] ELSE C0)
            ELSE IF -n <= nbf THEN (IF (-n) % 2 = 0 THEN CConj(pos[-n]) ELSE CNeg(CConj(pos[-n])))
            ELSE C0])

ToneSpectrumAt(u, t, i) ==
    LET As == [p \in 1..u.np |-> JacobiAnger(u.vj[t][p][i], p, Freq(u.f[t]), u.nb[t], u.nmax)]
    IN  TLCEval(M!ToneSpectrum(TLCEval(As), u.nmax))
SpectraAt(u, i) == TLCEval([t \in 1..u.nf |-> ToneSpectrumAt(u, t, i)])

(* Response functions.  "trig": a smooth odd/even pair the spec evaluates   *)
(* itself; "ohm": resp(v) = j v; "tab": values recorded from the object's   *)
(* own call operator, as a tree of sequences ending in one value per point. *)
RespFun(r, v) ==
    CASE r.kind = "ohm"  -> <<F0, v>>
      [] r.kind = "trig" ->
           <<FAdd(r.c[1], FAdd(FMul(r.c[2], FCos(FMul(r.c[3], v))), FMul(r.c[4], v))),
             FAdd(FMul(r.c[5], v), FMul(r.c[6], FSin(FMul(r.c[7], v))))>>

RECURSIVE RespTree(_, _, _)
RespTree(u, v, t) ==
    IF t > u.nf THEN RespFun(u.resp, v)
    ELSE TLCEval([k \in 1..(2 * u.nb[t] + 1) |->
             RespTree(u, FAdd(v, FMul(FI(k - u.nb[t] - 1), Freq(u.f[t]))), t + 1)])
RECURSIVE TabTree(_, _, _, _)
TabTree(R, nf, t, i) == IF t > nf THEN R[i]
                        ELSE TLCEval([k \in 1..Len(R) |-> TabTree(R[k], nf, t + 1, i)])
TreeAt(u, i) == IF u.resp.kind = "tab" THEN TabTree(u.resp.R, u.nf, 1, i)
                ELSE RespTree(u, u.vb[i], 1)

(* The current at requested frequency q (integer, 1e-7): every mixing       *)
(* product that lands on q, added up.                                       *)
ProductsOn(u, q) == M!Products(u.nf, u.np, u.f, q, Key4)
RECURSIVE SumProducts(_, _, _, _)
SumProducts(ps, C, nb, R) ==
    IF ps = {} THEN C0
    ELSE LET a == CHOOSE x \in ps : TRUE
         IN  CAdd(M!Current(C, a, nb, R), SumProducts(ps \ {a}, C, nb, R))
CurrentsAt(u, qs, i) ==
    LET C == SpectraAt(u, i)
        R == TLCEval(TreeAt(u, i))
    IN  TLCEval([k \in 1..Len(qs) |-> SumProducts(ProductsOn(u, qs[k]), C, u.nb, R)])
=============================================================================
