------------------------------ MODULE QTTrace ------------------------------
(***************************************************************************)
(* Judges recorded behaviour of qmix.qtcurrent against QT (Q01-Q06).       *)
(***************************************************************************)
EXTENDS QT, Rec, Verdict

(* row k, bias i of a flat [m, n] array *)
At(o, n, k, i) == AsC(o, (k - 1) * n + i)

(* The scale a difference is judged at: currents of the set-ups used are of *)
(* order one, so 1e-9 absolute + relative.                                  *)
Near(x, y) == CClose(x, y, RTOL9, ATOL9)

MatchesSum(r, o) ==
    \A i \in 1..r.u.npts :
        LET want == CurrentsAt(r.u, r.req, i)
        IN  \A k \in 1..Len(r.req) : Near(At(o, r.u.npts, k, i), want[k])

(* Q01 *)
CurFails(r) ==
    IF ~r.out.ok THEN {"no-exception"}
    ELSE IF ~OKArr(r.out, "c", <<Len(r.req), r.u.npts>>) THEN {"shape"}
    ELSE Clause("spectral-sum", MatchesSum(r, r.out))

(* Q02: coefficient k of tone t at bias i; orders wrap like array indices.  *)
PFAt(r, t, k, i) == LET w == 2 * r.u.nmax + 1
                        kk == IF k < 0 THEN k + w ELSE k
                    IN  AsC(r.out, t * w * r.u.npts + kk * r.u.npts + i)
Inert(u, t, i) == \A p \in 1..u.np : u.vj[t][p][i] = C0
SmallDrive(u, t, i) ==          \* enough orders for the truncated sum to be complete
    FLe(FMul(FI(3), FSum([p \in 1..u.np |-> FDiv(CAbs(u.vj[t][p][i]), Freq(u.f[t]))])),
        FI(u.nb[t] - 5))
PFFails(r) ==
    LET u == r.u
        TI == (1..u.nf) \X (1..u.npts)
    IN  IF ~r.out.ok THEN {"no-exception"}
        ELSE IF ~OKArr(r.out, "c", <<u.nf + 1, 2 * u.nmax + 1, u.npts>>) THEN {"shape"}
        ELSE Clause("input-unchanged", Same(r.before, r.after))
             \cup Clause("jacobi-anger-convolution",
                    \A ti \in TI : LET C == ToneSpectrumAt(u, ti[1], ti[2])
                                   IN  \A k \in -u.nmax..u.nmax : Near(PFAt(r, ti[1], k, ti[2]), C[k]))
             \cup Clause("idle-tone-is-delta",
                    \A ti \in TI : Inert(u, ti[1], ti[2]) =>
                        \A k \in -u.nmax..u.nmax : Near(PFAt(r, ti[1], k, ti[2]), IF k = 0 THEN C1 ELSE C0))
             \cup Clause("mirror",
                    u.np = 1 => \A ti \in TI : \A k \in 1..u.nmax :
                        LET m == CConj(PFAt(r, ti[1], k, ti[2]))
                        IN  Near(PFAt(r, ti[1], -k, ti[2]), IF k % 2 = 0 THEN m ELSE CNeg(m)))
             \cup Clause("unitary",
                    \A ti \in TI : SmallDrive(u, ti[1], ti[2]) =>
                        FClose(FSum([k \in 1..(2 * u.nmax + 1) |->
                                   LET a == CAbs(PFAt(r, ti[1], k - u.nmax - 1, ti[2])) IN FMul(a, a)]),
                               F1, FDec(1, -4), F0))

(* Q03: u2 carries the tones of u1 in the slots given; everything else in   *)
(* u2 is idle (this is checked, so the record itself is the hypothesis).    *)
IsRelabelling(r) ==
    LET u1 == r.u1
        u2 == r.u2
    IN  /\ \A t \in 1..u1.nf : u2.f[r.slots[t]] = u1.f[t] /\ u2.nb[r.slots[t]] = u1.nb[t]
        /\ \A s \in 1..u2.nf : \A p \in 1..u2.np :
             LET ts == {t \in 1..u1.nf : r.slots[t] = s}
             IN  IF ts # {} /\ p <= u1.np THEN u2.vj[s][p] = u1.vj[CHOOSE t \in ts : TRUE][p]
                 ELSE \A i \in 1..u2.npts : u2.vj[s][p][i] = C0
        /\ u1.vb = u2.vb
PairFails(r) ==
    LET sh == <<Len(r.req), r.u1.npts>>
    IN  IF ~r.out1.ok \/ ~r.out2.ok THEN {"no-exception"}
        ELSE IF ~OKArr(r.out1, "c", sh) \/ ~OKArr(r.out2, "c", sh) THEN {"shape"}
        ELSE Clause("same-currents", CloseArr(r.out1, r.out2, RTOL9, ATOL9))
RelabelFails(r) == IF ~IsRelabelling(r) THEN {"machinery-not-a-relabelling"} ELSE PairFails(r)
SecondFails(r) ==
    IF ~(/\ r.u2.f[1] = r.h * r.u1.f[1] /\ r.u1.nb[1] = r.h * r.u2.nb[1]
         /\ r.u1.vj[1][r.h] = r.u2.vj[1][1]
         /\ \A p \in 1..(r.h - 1) : \A i \in 1..r.u1.npts : r.u1.vj[1][p][i] = C0)
    THEN {"machinery-not-a-lone-harmonic"} ELSE PairFails(r)

(* Q04 *)
PhaseFails(r) ==
    LET n == r.u.npts
        m == Len(r.req)
        sh == <<m, n>>
        KI == (1..m) \X (1..n)
        turn(k) == CExpJ(FSum([f \in 1..r.u.nf |-> FMul(FI(r.orders[k][f]), r.theta[f])]))
        dc(k) == \A f \in 1..r.u.nf : r.orders[k][f] = 0
    IN  IF ~r.out.ok \/ ~r.rot.ok \/ ~r.neg.ok THEN {"no-exception"}
        ELSE IF ~(OKArr(r.out, "c", sh) /\ OKArr(r.rot, "c", sh) /\ OKArr(r.neg, "c", sh)) THEN {"shape"}
        ELSE Clause("covariant",
                 \A k \in 1..m : LET e == turn(k) IN
                     \A i \in 1..n : Near(At(r.rot, n, k, i), CMul(e, At(r.out, n, k, i))))
             \cup Clause("conjugate-at-negative",
                 \A ki \in KI : Near(At(r.neg, n, ki[1], ki[2]), CConj(At(r.out, n, ki[1], ki[2]))))
             \cup Clause("dc-real", \A ki \in KI : dc(ki[1]) =>
                     FLe(FAbs(Im(At(r.out, n, ki[1], ki[2]))), FDec(1, -12)))

(* Q05 *)
SweepFails(r) ==
    LET TINY == FDec(1, -11)
    IN  IF ~r.full.ok \/ \E p \in 1..Len(r.pieces) : ~r.pieces[p].out.ok THEN {"no-exception"}
        ELSE IF ~OKArr(r.full, "c", <<r.nreq, r.npts>>)
                \/ \E p \in 1..Len(r.pieces) : ~OKArr(r.pieces[p].out, "c", <<r.nreq, Len(r.pieces[p].idx)>>)
             THEN {"shape"}
        ELSE Clause("bias-points-independent",
                 \A p \in 1..Len(r.pieces) : LET ix == r.pieces[p].idx IN
                     \A k \in 1..r.nreq : \A j \in 1..Len(ix) :
                         CClose(At(r.pieces[p].out, Len(ix), k, j), At(r.full, r.npts, k, ix[j]), TINY, TINY))

RECURSIVE FlatTree(_, _, _, _)
(* The entries of the pre-interpolated matrix in storage order: along each  *)
(* axis the orders run 0, 1, .., nb, -nb, .., -1.                           *)
Storage(nb) == [j \in 1..(2 * nb + 1) |-> IF j <= nb + 1 THEN j - 1 ELSE j - 2 * nb - 2]
FlatTree(trees, nb, t, node) ==          \* node: sequence of per-bias nodes
    IF t > Len(nb) THEN node
    ELSE LET st == Storage(nb[t])
             RECURSIVE Cat(_)
             Cat(j) == IF j > Len(st) THEN <<>>
                       ELSE FlatTree(trees, nb, t + 1,
                                [i \in 1..Len(node) |-> node[i][st[j] + nb[t] + 1]]) \o Cat(j + 1)
         IN  Cat(1)
MatrixFails(r) ==
    LET u == r.u
        sh == [t \in 1..(u.nf + 1) |-> IF t <= u.nf THEN 2 * u.nb[t] + 1 ELSE u.npts]
        trees == TLCEval([i \in 1..u.npts |-> TreeAt(u, i)])
    IN  IF ~r.rm.ok \/ ~r.plain.ok \/ ~r.given.ok THEN {"no-exception"}
        ELSE IF ~OKArr(r.rm, "c", sh) \/ ~OKArr(r.plain, "c", <<Len(r.req), u.npts>>) THEN {"shape"}
        ELSE Clause("matrix-entries",
                 LET want == TLCEval(FlatTree(trees, u.nb, 1, trees))
                 IN  \A k \in 1..Len(want) : CClose(r.rm.v[k], want[k], RTOL9, ATOL9))
             \cup Clause("matrix-unchanged", Same(r.rm, r.rm_after))
             \cup Clause("matrix-transparent", CloseArr(r.given, r.plain, FDec(1, -11), FDec(1, -11)))

(* Q06 *)
Unchanged(r) == Len(r.before) = Len(r.after) /\ \A k \in 1..Len(r.before) : Same(r.before[k], r.after[k])
RequestFails(r) ==
    Clause("inputs-unchanged", Unchanged(r)) \cup
    (IF ~r.out.ok THEN {"no-exception"}
     ELSE IF ~OKArr(r.out, "c", <<Len(r.req), r.u.npts>>) THEN {"one-row-per-request"}
     ELSE Clause("row-values", MatchesSum(r, r.out))
          \cup Clause("non-mixing-is-zero",
                 \A k \in 1..Len(r.req) : ProductsOn(r.u, r.req[k]) = {} =>
                     \A i \in 1..r.u.npts : At(r.out, r.u.npts, k, i) = C0)
          \cup Clause("duplicates-equal",
                 \A j, k \in 1..Len(r.req) : r.req[j] = r.req[k] =>
                     \A i \in 1..r.u.npts : At(r.out, r.u.npts, j, i) = At(r.out, r.u.npts, k, i)))
ScalarFails(r) ==
    IF ~r.out.ok THEN {"no-exception"}
    ELSE IF ~OKArr(r.out, IF r.req[1] = 0 THEN "f" ELSE "c", <<r.u.npts>>) THEN {"one-sweep-real-for-dc"}
    ELSE Clause("scalar-values", MatchesSum(r, r.out))
RejectFails(r) == Clause("rejected", Raised(r.out)) \cup Clause("inputs-unchanged", Unchanged(r))

QTFails(r) ==
    CASE r.op = "cur" -> CurFails(r)
      [] r.op = "pf" -> PFFails(r)
      [] r.op = "relabel" -> RelabelFails(r)
      [] r.op = "second" -> SecondFails(r)
      [] r.op = "phase" -> PhaseFails(r)
      [] r.op = "sweep" -> SweepFails(r)
      [] r.op = "matrix" -> MatrixFails(r)
      [] r.op = "request" -> RequestFails(r)
      [] r.op = "scalar" -> ScalarFails(r)
      [] r.op = "reject" -> RejectFails(r)
      [] OTHER -> {"unknown-op"}
=============================================================================
