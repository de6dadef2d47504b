---------------------------- MODULE RecoverTrace ----------------------------
(***************************************************************************)
(* Judges recorded impedance recoveries.  A record has a measurement m     *)
(* (see Recover), r.probe - grid cells to compare with, r.zemb - the       *)
(* impedance the user forced, r.planted - the circuit the curve came from, *)
(* and what the implementation found: zt, vt, zw, alpha, good.             *)
(***************************************************************************)
EXTENDS Recover, Rec, Verdict

Num(o) == OKArr(o, "f", <<>>) /\ FIsFinite(o.v[1])
Cpx(o) == o.ok /\ o.kind \in {"f", "c"} /\ o.shape = <<>> /\ CFinite(AsC(o, 1))

RecoverFails(r) ==
    IF ~r.made THEN {"recovery-raised"} ELSE
    LET m == r.m
        ix == Selected(m)
        n == Len(ix)
        al == Drives(m, ix)
        v == Volts(m, al)
        z == Imps(m, ix, al)
        mid == Middle(m, ix)
        (* resolution of the drive level search: its last step, twice *)
        da == FMul(m.amax, FDec(4, -5))
        dv == FMul(da, m.vph)
        zt == AsC(r.zt, 1)
        best == Misfit(v, z, zt)
        (* a residual changes by no more than a few times what a voltage does *)
        slack(e) == FAdd(FMul(FMul(FI(8), dv), FSqrt(e)), FMul(FI(16), FMul(dv, dv)))
        gr == GridRe(m)
        gi == GridIm(m)
        kr == Nearest(gr, Re(zt))
        ki == Nearest(gi, Im(zt))
        around == {<<a, b>> \in ((kr - 1)..(kr + 1)) \X ((ki - 1)..(ki + 1)) : a \in 1..101 /\ b \in 1..201}
        probes == around \cup {<<r.probe[k][1], r.probe[k][2]>> : k \in 1..Len(r.probe)}
        err == [c \in probes |-> Misfit(v, z, <<gr[c[1]], gi[c[2]]>>)]
        nowBetter == \A c \in probes : FLe(best, FAdd(err[c], slack(err[c])))
        surf(c) == r.err_surf.v[(c[1] - 1) * 201 + c[2]]
        zp == <<r.planted.re, r.planted.im>>
        (* Is the known circuit singled out by the curve?  Every impedance at  *)
        (* distance tol is a worse fit than the grid cell nearest to it.       *)
        ring == [k \in 1..32 |-> CAdd(zp, CScale(r.planted.tol, CExpJ(FMul(FI(k), FStr("0.19634954084936207")))))]
        cell == Misfit(v, z, <<gr[Nearest(gr, Re(zp))], gi[Nearest(gi, Im(zp))]>>)
        distinct == \A k \in 1..32 : LET e == Misfit(v, z, ring[k]) IN FLt(FAdd(cell, slack(cell)), FSub(e, slack(e)))
        current == FMaxSeq([k \in 1..n |-> FDiv(v[k], CAbs(z[k]))])
        usable == n >= 3 /\ \A k \in 1..n : FLt(FDec(2, -2), al[k]) /\ (FLe(al[k], m.amax) \/ Reachable(m, ix[k], al[k]))
    IN  IF ~usable THEN {} ELSE
        IF ~(Cpx(r.zt) /\ Num(r.vt) /\ Num(r.alpha) /\ Cpx(r.zw)) THEN {"attributes"} ELSE
        (IF r.zemb.is THEN Clause("given-impedance-used", zt = <<r.zemb.re, r.zemb.im>>)
         ELSE Clause("on-search-grid", FClose(Re(zt), gr[kr], F0, FDec(1, -12)) /\ FClose(Im(zt), gi[ki], F0, FDec(1, -12)))
              \cup Clause("smallest-error", nowBetter)
              \cup Clause("fit-verdict", r.good.ok /\ r.good.kind = "b"
                       /\ (FLt(FAdd(best, slack(best)), FDec(4, -7)) => r.good.v[1])
                       /\ (FLt(FDec(12, -7), FSub(best, slack(best))) => ~r.good.v[1])))
        \cup Clause("source-voltage", FClose(r.vt.v[1], Source(v, z, zt), FDec(1, -3), F0))
        \cup Clause("drive-level", FClose(r.alpha.v[1], al[mid], F0, da))
        \cup Clause("junction-impedance", CClose(AsC(r.zw, 1), z[mid], FAdd(FDec(1, -4), FDiv(FMul(F2, da), al[mid])), F0))
        \cup Clause("error-surface", r.err_surf.ok /\ r.err_surf.kind = "f" /\ r.err_surf.shape = <<101, 201>> /\
                 \A c \in probes : FLe(FAbs(FSub(surf(c), err[c])), FAdd(slack(err[c]), FMul(FDec(1, -9), err[c]))))
        \cup (IF ~r.planted.is THEN {} ELSE
              Clause("known-impedance", r.zemb.is \/ ~distinct \/ FLe(CAbs(CSub(zt, zp)), r.planted.tol))
              \cup Clause("known-voltage", (~r.zemb.is /\ ~distinct) \/
                        FClose(r.vt.v[1], r.planted.vt, FDec(1, -2), IF r.zemb.is THEN F0 ELSE FMul(current, r.planted.tol)))
              \cup Clause("known-drive", FClose(r.alpha.v[1], r.planted.alpha, F0, FDec(2, -3)))
              \cup Clause("known-is-good", r.zemb.is \/ (r.good.ok /\ r.good.v = <<TRUE>>)))

RTFails(r) ==
    CASE r.op = "recover" -> RecoverFails(r)
      [] OTHER -> {"unknown-op"}
=============================================================================
