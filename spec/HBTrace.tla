------------------------------ MODULE HBTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs of qmix.harmonic_balance (H01-H05).  The error of  *)
(* a junction voltage is computed from the specification's own currents    *)
(* (QT); the outcome of a call from the shared definitions in HB.          *)
(*                                                                         *)
(* Signals are numbered k = (t-1)*np + p; arrays of the code carry an      *)
(* unused index zero in both directions.                                   *)
(***************************************************************************)
EXTENDS QT, HB, Rec, Verdict

Sig(u) == 1..(u.nf * u.np)
ToneOf(u, k) == (k - 1) \div u.np + 1
HarmOf(u, k) == ((k - 1) % u.np) + 1
VShape(u) == <<u.nf + 1, u.np + 1, u.npts>>
FlatIx(u, t, p, i) == t * (u.np + 1) * u.npts + p * u.npts + i
VAt(o, u, k, i) == AsC(o, FlatIx(u, ToneOf(u, k), HarmOf(u, k), i))
VJ(o, u) == TLCEval([t \in 1..u.nf |-> [p \in 1..u.np |-> [i \in 1..u.npts |-> AsC(o, FlatIx(u, t, p, i))]]])
PaddingZero(o, u) ==
    \A t \in 0..u.nf : \A p \in 0..u.np : t = 0 \/ p = 0 =>
        \A i \in 1..u.npts : LET z == AsC(o, FlatIx(u, t, p, i)) IN FEq(z[1], F0) /\ FEq(z[2], F0)

Lines(u) == [k \in Sig(u) |-> HarmOf(u, k) * u.f[ToneOf(u, k)]]
(* Thevenin voltages below the documented minimum count as the minimum.    *)
MINVT == FDec(1, -10)
Raised10(z) == IF FLt(CAbs(z), MINVT) THEN CR(MINVT) ELSE z
VtAt(r, k) == Raised10(r.vt[ToneOf(r.u, k)][HarmOf(r.u, k)])
ZtAt(r, k) == r.zt[ToneOf(r.u, k)][HarmOf(r.u, k)]

(* E[i][k] = vt - zt * I(vj) - vj *)
ErrAt(r, vj, i) ==
    LET u == [r.u EXCEPT !.vj = vj]
        cur == CurrentsAt(u, Lines(u), i)
    IN  TLCEval([k \in Sig(u) |->
            CSub(CSub(VtAt(r, k), CMul(ZtAt(r, k), cur[k])), vj[ToneOf(u, k)][HarmOf(u, k)][i])])
Err(r, vj) == TLCEval([i \in 1..r.u.npts |-> ErrAt(r, vj, i)])

(* Is |e|/|v| <= tol?  Ties (to rounding) count as either.                 *)
FUZZ == FDec(1, -12)
Surely(e, v, tol) == FLe(FMul(FAdd(CAbs(e), FUZZ), FDec(1000001, -6)), FMul(tol, CAbs(v)))
SurelyNot(e, v, tol) == FLt(FMul(tol, CAbs(v)), FMul(FSub(CAbs(e), FUZZ), FDec(999999, -6)))
PointMet(r, E, vj, i) ==
    LET u == r.u
        v(k) == vj[ToneOf(u, k)][HarmOf(u, k)][i]
    IN  IF \A k \in Sig(u) : Surely(E[i][k], v(k), r.tol) THEN {TRUE}
        ELSE IF \E k \in Sig(u) : SurelyNot(E[i][k], v(k), r.tol) THEN {FALSE}
        ELSE {TRUE, FALSE}
MetSet(r, vj) ==
    LET E == Err(r, vj)
        m == TLCEval([i \in 1..r.u.npts |-> PointMet(r, E, vj, i)])
    IN  IF \E i \in 1..r.u.npts : m[i] = {FALSE} THEN {FALSE}
        ELSE IF \A i \in 1..r.u.npts : m[i] = {TRUE} THEN {TRUE} ELSE {TRUE, FALSE}

---------------------------------------------------------------------------
(* H01: a solution reported as converged solves the circuit; returning one
   without saying that the target was missed (r.flag) is such a report.      *)
SolveFails(r) ==
    IF ~r.out.ok THEN {"no-exception"}
    ELSE IF ~OKArr(r.out, "c", VShape(r.u)) THEN {"shape"}
    ELSE LET vj == VJ(r.out, r.u) IN
         Clause("padding-zero", PaddingZero(r.out, r.u))
         \cup Clause("thevenin-equations", r.flag => TRUE \in MetSet(r, vj))
         \cup Clause("finite", \A k \in 1..Len(r.out.v) : CFinite(AsC(r.out, k)))

(* H01: check_hb_error rejected the limit lo and accepted the limit hi.    *)
CheckFails(r) ==
    LET vj == VJ(r.out, r.u)
        E == Err(r, vj)
        rel(i, k) == FDiv(CAbs(E[i][k]), CAbs(vj[ToneOf(r.u, k)][HarmOf(r.u, k)][i]))
        worst == FMaxSeq([j \in 1..(r.u.npts * r.u.nf * r.u.np) |->
                     rel(((j - 1) % r.u.npts) + 1, (j - 1) \div r.u.npts + 1)])
    IN  Clause("rejects-above-limit", r.lorej /\ FLe(FMul(r.lo, FDec(999, -3)), worst))
        \cup Clause("accepts-below-limit", r.hiacc /\ FLe(worst, FMul(r.hi, FDec(1001, -3))))

---------------------------------------------------------------------------
(* H02: r.runs[n+1] is the call with max_it = n.                           *)
OutcomeFails(r) ==
    IF \E n \in 1..Len(r.runs) : ~r.runs[n].v.ok THEN {"no-exception"}
    ELSE IF \E n \in 1..Len(r.runs) : ~OKArr(r.runs[n].v, "c", VShape(r.u)) THEN {"shape"}
    ELSE LET N == Len(r.runs) - 1
             \* with an exact Met sequence the outcome is Corrections/Converged; ties leave a choice
             ms == TLCEval([n \in 1..(N + 1) |-> MetSet(r, VJ(r.runs[n].v, r.u))])
             met == [n \in 1..(N + 1) |-> ms[n] = {TRUE} \/ (ms[n] = {TRUE, FALSE} /\ r.runs[n].flag)]
         IN  Clause("flag-truthful", \A n \in 0..N : r.runs[n + 1].flag \in ms[n + 1])
             \cup Clause("corrections-counted", \A n \in 0..N : r.runs[n + 1].it = Corrections(met, n))
             \cup Clause("flag-of-history", \A n \in 0..N : r.runs[n + 1].flag = Converged(met, n))
             \cup Clause("stops-when-met", \A n \in 0..N :
                     Same(r.runs[n + 1].v, r.runs[Corrections(met, n) + 1].v))
             \cup Clause("announced", \A n \in 0..N : r.runs[n + 1].spoke = ~r.runs[n + 1].flag)
             \cup Clause("same-in-every-mode", \A m \in 1..Len(r.modes) :
                     CloseArr(r.modes[m].v, r.runs[r.modes[m].max + 1].v, FDec(1, -12), F0))
             \cup Clause("mask", \A m \in 1..Len(r.masks) :
                     LET k == r.masks[m]
                         vj == VJ(r.runs[k.max + 1].v, r.u)
                         E == Err(r, vj)
                     IN  IF ~OKArr(k.mask, "b", <<r.u.npts>>) THEN FALSE
                         ELSE \A i \in 1..r.u.npts : k.mask.v[i] \in PointMet(r, E, vj, i))

---------------------------------------------------------------------------
(* H03 *)
GuessFails(r) ==
    LET v0 == r.runs[1].v
        u == r.u
        want(k) == LET z == CR(r.zjg) IN CDiv(CMul(VtAt(r, k), z), CAdd(z, ZtAt(r, k)))
    IN  IF r.given.ok
        THEN Clause("starts-from-given-guess", CloseArr(v0, r.given, FDec(1, -12), F0))
        ELSE Clause("starts-from-divider", \A k \in Sig(u) : \A i \in 1..u.npts :
                 CClose(VAt(v0, u, k, i), want(k), FDec(1, -9), FDec(1, -18)))

(* The undamped correction cancels the linearised error: with the          *)
(* directional derivative J.x by central differences of the specification's*)
(* own error, |E + J.x| is a small fraction of |E| at every bias point.    *)
Shift(u, vj, x, h) ==
    TLCEval([t \in 1..u.nf |-> [p \in 1..u.np |-> [i \in 1..u.npts |->
        CAdd(vj[t][p][i], CScale(h, x[(t - 1) * u.np + p][i]))]]])
SupNorm(E, u) == FMaxSeq([k \in Sig(u) |-> CAbs(E[k])])
NewtonStep(r, n) ==
    LET u == r.u
        a == VJ(r.runs[n + 1].v, u)
        x == TLCEval([k \in Sig(u) |-> [i \in 1..u.npts |->
                CScale(FDiv(F1, r.damp), CSub(VAt(r.runs[n + 2].v, u, k, i), VAt(r.runs[n + 1].v, u, k, i)))]])
        size == FMaxSeq([j \in 1..(u.npts * u.nf * u.np) |-> CAbs(x[(j - 1) \div u.npts + 1][((j - 1) % u.npts) + 1])])
        h == FDiv(FDec(1, -3), FMax(size, FDec(1, -3)))
        E == Err(r, a)
        Ep == Err(r, Shift(u, a, x, h))
        Em == Err(r, Shift(u, a, x, FNeg(h)))
    IN  \* far-away corrections (nearly singular Jacobians) are not judged
        FLe(size, FDec(5, -1)) => \A i \in 1..u.npts :
            LET left == [k \in Sig(u) |-> CAdd(E[i][k],
                            CScale(FDiv(F1, FMul(F2, h)), CSub(Ep[i][k], Em[i][k])))]
            IN  FLe(SupNorm(left, u), FAdd(FMul(r.slack, SupNorm(E[i], u)), FDec(1, -8)))
IterateFails(r) ==
    IF \E n \in 1..Len(r.runs) : ~r.runs[n].v.ok THEN {"no-exception"}
    ELSE IF \E n \in 1..Len(r.runs) : ~OKArr(r.runs[n].v, "c", VShape(r.u)) THEN {"shape"}
    ELSE LET N == Len(r.runs) - 1 IN
         GuessFails(r)
         \cup Clause("prefix", \A n \in 0..N : r.runs[n + 1].it <= n /\
                 \A m \in n..N : r.runs[m + 1].it = r.runs[n + 1].it => Same(r.runs[m + 1].v, r.runs[n + 1].v))
         \cup Clause("newton-step", \A n \in 0..(N - 1) :
                 r.runs[n + 2].it > r.runs[n + 1].it => NewtonStep(r, n))
         \cup Clause("resumable", \A s \in 1..Len(r.splits) :
                 LET p == r.splits[s]          \* runs[first], then again for `more`, = runs[first+more]
                 IN  CloseArr(p.v, r.runs[p.first + p.more + 1].v, FDec(1, -9), FDec(1, -12)))
         \cup Clause("bias-points-independent", \A s \in 1..Len(r.singles) :
                 LET p == r.singles[s]
                     u1 == [r.u EXCEPT !.npts = 1]
                 IN  IF ~OKArr(p.v, "c", VShape(u1)) THEN FALSE
                     ELSE \A k \in Sig(r.u) :
                             CClose(VAt(p.v, u1, k, 1), VAt(r.runs[p.max + 1].v, r.u, k, p.i), FDec(1, -7), FDec(1, -9)))

---------------------------------------------------------------------------
(* H04 *)
VtRule(r) ==
    /\ OKArr(r.vt1, "c", <<r.u.nf + 1, r.u.np + 1>>)
    /\ \A t \in 0..r.u.nf : \A p \in 0..r.u.np :
          LET j == t * (r.u.np + 1) + p + 1
              a == r.vt0.v[j]
              b == r.vt1.v[j]
          IN  b = a \/ (IF t = 0 \/ p = 0 THEN FEq(b[1], F0) /\ FEq(b[2], F0)
                        ELSE FLt(CAbs(a), MINVT) /\ b = CR(MINVT))
IntactFails(r) ==
    IF ~r.first.ok \/ ~r.second.ok THEN {"no-exception"}
    ELSE Clause("guess-unchanged", SameOutcome(r.guess0, r.guess1))
         \cup Clause("circuit-unchanged", Len(r.before) = Len(r.after) /\
                 \A k \in 1..Len(r.before) : Same(r.before[k], r.after[k]))
         \cup Clause("thevenin-voltages", VtRule(r))
         \cup Clause("repeatable", Same(r.first, r.second))

---------------------------------------------------------------------------
(* H05: resp(v) = j v, i.e. the current is the voltage.                    *)
Divider(r, k) == CDiv(VtAt(r, k), CAdd(C1, ZtAt(r, k)))
OhmFails(r) ==
    IF \E n \in 1..Len(r.runs) : ~r.runs[n].v.ok THEN {"no-exception"}
    ELSE IF \E n \in 1..Len(r.runs) : ~OKArr(r.runs[n].v, "c", VShape(r.u)) THEN {"shape"}
    ELSE LET u == r.u
             N == Len(r.runs) - 1
             dev(n, k, i) == CSub(VAt(r.runs[n + 1].v, u, k, i), Divider(r, k))
             KI == Sig(u) \X (1..u.npts)
         IN  Clause("damping-law", \A n \in 0..(N - 1) : \A ki \in KI :
                 r.runs[n + 2].it = n + 1 =>
                    LET want == CScale(FSub(F1, r.damp), dev(n, ki[1], ki[2]))
                    IN  CClose(dev(n + 1, ki[1], ki[2]), want, FDec(1, -5), FDec(1, -7)))
             \* (signals at the minimum voltage are dominated by the rounding of the others)
             \cup Clause("one-step", FEq(r.damp, F1) /\ (\A k \in Sig(u) : FLt(FDec(1, -6), CAbs(VtAt(r, k)))) =>
                    r.runs[N + 1].flag /\ r.runs[N + 1].it <= 1)
             \cup Clause("voltage-divider", r.runs[N + 1].flag => \A ki \in KI :
                    CClose(dev(N, ki[1], ki[2]), C0, F0,
                        FAdd(FDec(1, -7), FMul(FMul(F2, r.tol), CAbs(VAt(r.runs[N + 1].v, u, ki[1], ki[2]))))))
(* A signal without impedance sees its Thevenin voltage.                   *)
ShortedFails(r) ==
    IF ~r.out.ok THEN {"no-exception"}
    ELSE IF ~OKArr(r.out, "c", VShape(r.u)) THEN {"shape"}
    ELSE Clause("sees-thevenin-voltage", \A k \in Sig(r.u) : ZtAt(r, k) = C0 =>
             \A i \in 1..r.u.npts : IF r.exact
                 THEN LET v == VAt(r.out, r.u, k, i)
                          w == r.vt[ToneOf(r.u, k)][HarmOf(r.u, k)]
                      IN  CClose(v, w, FDec(1, -12), F0) \/ CClose(v, VtAt(r, k), FDec(1, -12), F0)
                 ELSE CClose(VAt(r.out, r.u, k, i), VtAt(r, k), FMul(r.tol, FDec(1001, -3)), FDec(1, -9)))
         \cup Clause("padding-zero", PaddingZero(r.out, r.u))
         \cup Clause("reported-converged", r.exact => r.flag /\ r.it = 0 /\
                 OKArr(r.mask, "b", <<r.u.npts>>) /\ \A i \in 1..r.u.npts : r.mask.v[i])

HBFails(r) ==
    CASE r.op = "solve" -> SolveFails(r)
      [] r.op = "check" -> CheckFails(r)
      [] r.op = "outcome" -> OutcomeFails(r)
      [] r.op = "iterate" -> IterateFails(r)
      [] r.op = "intact" -> IntactFails(r)
      [] r.op = "ohm" -> OhmFails(r)
      [] r.op = "shorted" -> ShortedFails(r)
      [] OTHER -> {"unknown-op"}
=============================================================================
