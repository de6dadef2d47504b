---------------------------- MODULE CircuitTrace ----------------------------
(***************************************************************************)
(* Judges recorded histories of qmix.circuit (C01-C04).  A record is a     *)
(* constructor call and a sequence of operations, each with its outcome    *)
(* and the projected state after it; the specification steps through the   *)
(* history, resynchronising on the observed state so that every step is    *)
(* judged on its own.                                                      *)
(***************************************************************************)
EXTENDS Circuit, Rec, Verdict

H == FStr("6.62607015e-34")
QE == FStr("1.602176634e-19")
TOL == FDec(1, -9)
Num(o) == o.v[1]                     \* a projected real scalar
None(o) == o.ok /\ o.kind = "none"
IsNum(o) == o.ok /\ o.kind = "f" /\ o.shape = <<>>
IsC(o) == o.ok /\ o.kind \in {"f", "c"} /\ o.shape = <<>>
NearN(o, x) == IsNum(o) /\ FClose(Num(o), x, TOL, F0)

---------------------------------------------------------------------------
(* Units (letter case does not matter; the harness passes names as given   *)
(* and their lower-case form in `unit').                                   *)
FreqUnits == {"hz", "mhz", "ghz", "thz", "v", "mv", "norm"}
FreqScale(u) == CASE u = "hz" -> F1 [] u = "mhz" -> FDec(1, 6) [] u = "ghz" -> FDec(1, 9)
                  [] u = "thz" -> FDec(1, 12) [] u = "v" -> F1 [] u = "mv" -> FDec(1, -3) [] u = "norm" -> F1
PowerUnits == {"w", "mw", "uw", "nw", "pw", "fw", "dbm", "dbw"}
Linear(u) == CASE u = "w" -> F1 [] u = "mw" -> FDec(1, -3) [] u = "uw" -> FDec(1, -6)
               [] u = "nw" -> FDec(1, -9) [] u = "pw" -> FDec(1, -12) [] u = "fw" -> FDec(1, -15)
Log10(x) == FDiv(FLog(x), FLog(FI(10)))
Watts(x, u) == CASE u = "dbm" -> FPow(FI(10), FDiv(FSub(x, FI(30)), FI(10)))
                 [] u = "dbw" -> FPow(FI(10), FDiv(x, FI(10)))
                 [] OTHER -> FMul(x, Linear(u))
FromWatts(x, u) == CASE u = "dbm" -> FAdd(FMul(FI(10), Log10(x)), FI(30))
                     [] u = "dbw" -> FMul(FI(10), Log10(x))
                     [] OTHER -> FDiv(x, Linear(u))

---------------------------------------------------------------------------
(* State: [dims, freq, vt, zt, vb, fgap, vgap, igap, rn]                   *)
IsZero(z) == FEq(z[1], F0) /\ FEq(z[2], F0)
AtFP(s, a, f, p) == AsC(s[a], f * (s.dims.v[2] + 1) + p + 1)
Dims(s) == s.dims.v
Frozen == <<"dims", "fgap", "vgap", "igap", "rn">>
AllArrays == {"freq", "vt", "zt", "vb"}
SameState(s, t) == \A a \in AllArrays \cup {Frozen[i] : i \in 1..5} : Same(s[a], t[a])
OthersSame(s, t, a) == \A b \in (AllArrays \ {a}) \cup {Frozen[i] : i \in 1..5} : Same(s[b], t[b])
(* array a of t equals that of s except at flat positions ix, where it is  *)
(* close to want(k)                                                        *)
Wrote(s, t, a, ix, want(_)) ==
    /\ t[a].ok /\ t[a].kind = s[a].kind /\ t[a].shape = s[a].shape
    /\ \A k \in 1..Len(s[a].v) :
          IF k \in ix THEN \/ CClose(AsC(t[a], k), want(k), TOL, FDec(1, -30))
                          \/ ~CFinite(want(k))     \* (NaN written before)
                     ELSE t[a].v[k] = s[a].v[k]

(* Available power means nothing for a negative embedding resistance.      *)
Passive(s, f, p) == FLe(F0, Re(AtFP(s, "zt", f, p)))
HasGap(s) == ~None(s.vgap) /\ ~None(s.rn)
Power(s, f, p) ==
    LET v == FMul(CAbs(AtFP(s, "vt", f, p)), Num(s.vgap))
        r == FMul(Re(AtFP(s, "zt", f, p)), Num(s.rn))
    IN  IF FEq(r, F0) THEN F0 ELSE FDiv(FMul(v, v), FMul(FI(8), r))

(* Is an operation refused by its arguments (in any state)?                *)
BadArgs(o, s) ==
    CASE o.op = "set_freq" -> ~(o.unit \in FreqUnits) \/ (o.unit # "norm" /\ None(s.fgap))
      [] o.op = "available_power" -> ~(o.unit \in PowerUnits) \/ ~HasGap(s)
      [] o.op = "set_available_power" -> ~(o.unit \in PowerUnits) \/ ~HasGap(s) \/ IsZero(AtFP(s, "zt", o.f, o.p))
      [] o.op = "set_alpha" -> IsZero(AtFP(s, "zt", o.f, o.p)) \/ IsZero(AsC(s.freq, o.f + 1))
      [] OTHER -> FALSE

Pos(s, o) == o.f * (Dims(s)[2] + 1) + o.p + 1
Effect(o, s, t) ==
    CASE o.op = "set_freq" ->
           LET x == FMul(Num(o.value), FreqScale(o.unit))
               w == CASE o.unit \in {"v", "mv"} -> FDiv(x, Num(s.vgap))
                      [] o.unit = "norm" -> x
                      [] OTHER -> FDiv(x, Num(s.fgap))
           IN  Wrote(s, t, "freq", {o.f + 1}, LAMBDA k : CR(w))
      [] o.op = "set_available_power" ->
           LET pw == Watts(Num(o.value), o.unit)
               r == FMul(Re(AtFP(s, "zt", o.f, o.p)), Num(s.rn))
               v == FDiv(FSqrt(FMul(FMul(FI(8), pw), r)), Num(s.vgap))
           IN  ~Passive(s, o.f, o.p) \/ Wrote(s, t, "vt", {Pos(s, o)}, LAMBDA k : CR(v))
      [] o.op = "set_alpha" ->
           LET vj == CScale(FMul(FI(o.p), Re(AsC(s.freq, o.f + 1))), AsC(o.value, 1))
               z == AtFP(s, "zt", o.f, o.p)
               zj == AsC(o.zj, 1)
           IN  Wrote(s, t, "vt", {Pos(s, o)}, LAMBDA k : CMul(vj, CDiv(CAdd(zj, z), zj)))
      [] o.op \in {"put_freq", "put_vt", "put_zt", "put_vb"} ->
           Wrote(s, t, Target(o.op), {o.at + 1}, LAMBDA k : AsC(o.value, 1))
      [] o.op \in {"slice_freq", "slice_vt", "slice_zt", "slice_vb"} ->
           Wrote(s, t, Target(o.op), 1..Len(s[Target(o.op)].v), LAMBDA k : AsC(o.value, 1))
      [] o.op \in {"inplace_freq", "inplace_vt", "inplace_zt", "inplace_vb"} ->
           Wrote(s, t, Target(o.op), 1..Len(s[Target(o.op)].v), LAMBDA k : CMul(AsC(s[Target(o.op)], k), AsC(o.value, 1)))

ReadFails(o, s) ==
    CASE o.op = "available_power" ->
           LET w == FromWatts(Power(s, o.f, o.p), o.unit)
           IN  Clause("power-read-back", Passive(s, o.f, o.p) => IsNum(o.out) /\ (IF o.unit \in {"dbm", "dbw"}
                          THEN FClose(Num(o.out), w, FDec(1, -9), FDec(1, -8))
                          ELSE FClose(Num(o.out), w, TOL, F0)))
      [] o.op = "vph" -> Clause("photon-voltage", CloseArr(o.out, s.freq, TOL, F0))
      [] o.op = "initialize_vj" ->
           Clause("empty-vj", OKArr(o.out, "c", <<Dims(s)[1] + 1, Dims(s)[2] + 1, Dims(s)[4]>>)
                              /\ \A k \in 1..Len(o.out.v) : IsZero(o.out.v[k]))
      [] OTHER -> {}

(* One step: state s observed before, t after, l: locked before.           *)
StepFails(o, s, t, l) ==
    CASE o.op \in Writers /\ (Refused(o.op, l) \/ BadArgs(o, s)) ->
           Clause(IF l THEN "locked-refuses" ELSE "refused", Raised(o.out))
           \cup Clause(IF l THEN "locked-unchanged" ELSE "refused-unchanged", SameState(s, t))
      [] o.op \in Writers /\ ~(Refused(o.op, l) \/ BadArgs(o, s)) ->
           IF ~o.out.ok THEN (IF o.op = "set_available_power" /\ ~Passive(s, o.f, o.p) THEN {} ELSE {"no-exception"})
           ELSE Clause("only-target-changes", OthersSame(s, t, Target(o.op)))
                \cup Clause("effect-of-" \o o.op, Effect(o, s, t))
      [] o.op \in Readers /\ BadArgs(o, s) ->
           Clause("refused", Raised(o.out)) \cup Clause("reading-changes-nothing", SameState(s, t))
      [] o.op \in Readers /\ ~BadArgs(o, s) ->
           IF ~o.out.ok THEN {"no-exception"}
           ELSE Clause("reading-changes-nothing", SameState(s, t)) \cup ReadFails(o, s)
      [] o.op \in {"lock", "unlock"} \cup Labels ->
           Clause("no-exception", o.out.ok) \cup Clause("values-unchanged", SameState(s, t))
      [] o.op = "hb" -> Clause("locked-unchanged", l => SameState(s, t))
                        \cup Clause("only-thevenin-voltages", OthersSame(s, t, "vt"))
      [] OTHER -> {"unknown-op"}

(* The labels: the name of the circuit never changes, the signals' names   *)
(* only when one is named.                                                 *)
LabelFails(o, s, t) ==
    Clause("name-unchanged", t.title = s.title)
    \cup Clause(IF o.op \in Labels THEN "signal-named" ELSE "names-unchanged", t.names = NamesAfter(o.op, s.names, o.f, o.p, o.name))
RECURSIVE Walk(_, _, _, _)
Walk(ops, i, s, l) ==
    IF i > Len(ops) THEN {}
    ELSE StepFails(ops[i], s, ops[i].state, l) \cup LabelFails(ops[i], s, ops[i].state) \cup Walk(ops, i + 1, ops[i].state, LockedAfter(ops[i].op, l))
HistoryFails(r) == IF ~r.made.ok THEN {"no-exception"} ELSE Walk(r.ops, 1, r.start, FALSE)

---------------------------------------------------------------------------
(* C01: construction.  Absent optional arguments have kind "none".         *)
Given(o) == ~None(o)
MakeFails(r) ==
    LET a == r.args
        s == r.start
        nf == a.num_f
        np == a.num_p
        zeros(o, n) == Len(o.v) = n /\ \A k \in 1..n : IsZero(AsC(o, k))
        wantV == IF Given(a.vgap) THEN Num(a.vgap) ELSE FDiv(FMul(Num(a.fgap), H), QE)
        wantF == IF Given(a.fgap) THEN Num(a.fgap) ELSE FDiv(FMul(Num(a.vgap), QE), H)
        gap == Given(a.vgap) \/ Given(a.fgap)
        nearC(o, x) == IsNum(o) /\ FClose(Num(o), x, FDec(1, -6), F0)
    IN  IF ~r.made.ok THEN {"no-exception"}
        ELSE Clause("sizes", OKArr(s.dims, "f4", <<>>) \/ (s.dims.ok /\ s.dims.v = <<nf, np, nf * np, a.npts>>))
             \cup Clause("zeroed-arrays", OKArr(s.freq, "f", <<nf + 1>>) /\ OKArr(s.vt, "c", <<nf + 1, np + 1>>)
                    /\ OKArr(s.zt, "c", <<nf + 1, np + 1>>) /\ zeros(s.freq, nf + 1)
                    /\ zeros(s.vt, (nf + 1) * (np + 1)) /\ zeros(s.zt, (nf + 1) * (np + 1)))
             \cup Clause("bias-sweep", OKArr(s.vb, "f", <<a.npts>>)
                    /\ FCloseSeq(s.vb.v, FLinspace(a.lo, a.hi, a.npts), FDec(1, -12), FDec(1, -12))
                    /\ (a.npts > 1 => s.vb.v[1] = a.lo /\ s.vb.v[a.npts] = a.hi))
             \cup Clause("no-names", s.title = a.title /\ s.names = [f \in 1..(nf + 1) |-> [p \in 1..(np + 1) |-> ""]])
             \cup Clause("gap-voltage", IF gap THEN nearC(s.vgap, wantV) ELSE None(s.vgap))
             \cup Clause("gap-frequency", IF gap THEN nearC(s.fgap, wantF) ELSE None(s.fgap))
             \cup Clause("normal-resistance", IF Given(a.rn) THEN NearN(s.rn, Num(a.rn)) ELSE None(s.rn))
             \cup Clause("gap-current", IF gap /\ Given(a.rn) THEN nearC(s.igap, FDiv(wantV, Num(a.rn))) ELSE None(s.igap))
InvalidFails(r) == Clause("rejected", Raised(r.made))
(* two circuits do not share arrays *)
FreshFails(r) == Clause("fresh-arrays", r.made.ok /\ SameState(r.start, r.later) /\ r.start.names = r.later.names)

---------------------------------------------------------------------------
(* C03 *)
Rounds(x, y, half) == FLe(FAbs(FSub(Re(x), Re(y))), half) /\ FLe(FAbs(FSub(Im(x), Im(y))), half)
FileFails(r) ==
    LET s == r.before
        t == r.loaded
        \* half a unit of the last written decimal, plus the rounding of huge values
        near(o1, o2, h) == o1.ok /\ o2.ok /\ o1.shape = o2.shape /\ o1.kind = o2.kind
                           /\ \A f \in 1..s.dims.v[1] : \A p \in 1..s.dims.v[2] :
                                LET k == f * (s.dims.v[2] + 1) + p + 1
                                    m == FMul(FDec(1, -15), CAbs(AsC(o1, k)))
                                IN  Rounds(AsC(o1, k), AsC(o2, k), FAdd(h, m))
    IN  IF ~r.saved.ok \/ ~r.read.ok \/ ~r.resaved.ok THEN {"no-exception"}
        ELSE Clause("saving-changes-nothing", SameState(s, r.after) /\ s.names = r.after.names /\ s.title = r.after.title)
             \cup Clause("counts", t.dims.v[1] = s.dims.v[1] /\ t.dims.v[2] = s.dims.v[2] /\ t.dims.v[3] = s.dims.v[3])
             \cup (IF t.dims.v[1] # s.dims.v[1] \/ t.dims.v[2] # s.dims.v[2] THEN {}
                   ELSE Clause("frequencies", t.freq.ok /\ t.freq.shape = s.freq.shape /\ \A f \in 1..s.dims.v[1] :
                             Rounds(AsC(s.freq, f + 1), AsC(t.freq, f + 1), FAdd(FDec(500001, -10), FMul(FDec(1, -15), CAbs(AsC(s.freq, f + 1))))))
                        \cup Clause("thevenin-voltages", near(s.vt, t.vt, FDec(500001, -10)))
                        \cup Clause("thevenin-impedances", near(s.zt, t.zt, FDec(500001, -8))))
             \cup Clause("same-file-again", r.text1 = r.text2)

CircuitFails(r) ==
    CASE r.op = "history" -> HistoryFails(r)
      [] r.op = "make" -> MakeFails(r)
      [] r.op = "invalid" -> InvalidFails(r)
      [] r.op = "fresh" -> FreshFails(r)
      [] r.op = "file" -> FileFails(r)
      [] OTHER -> {"unknown-op"}
=============================================================================
