---------------------------- MODULE ReportsTrace ----------------------------
(***************************************************************************)
(* Judges printed reports (V02).  A report is a sequence of lines, each    *)
(* with its words (lower case) and numbers [x, half]: x as printed, half a  *)
(* unit of its last digit.  A printed number states a value that rounds to *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS Rec, Verdict, SequencesExt

Rounds(n, x) == FLe(FAbs(FSub(n.x, x)), FAdd(n.half, FMul(FDec(1, -12), FAbs(x))))
WordSet(s) == {s[k] : k \in 1..Len(s)}
(* the numbers of a line begin with these values *)
Starts(l, vals) == Len(l.nums) >= Len(vals) /\ \A k \in 1..Len(vals) : Rounds(l.nums[k], vals[k])
Exactly(l, vals) == Len(l.nums) = Len(vals) /\ Starts(l, vals)
Milli(x) == FMul(x, FDec(1, 3))
Micro(x) == FMul(x, FDec(1, 6))
Giga(x) == FDiv(x, FDec(1, 9))

(* --- DC data: name, unit, value, in this order --- *)
DCLines(d) ==
    <<<<"vgap", "mv", Milli(d.vgap)>>, <<"fgap", "ghz", Giga(d.fgap)>>, <<"rn", "ohms", d.rn>>, <<"rsg", "ohms", d.rsg>>, <<"q", "q", d.q>>,
      <<"jc", "ka", FDiv(d.jc, FDec(1, 7))>>, <<"ileak", "ua", Micro(d.ileak)>>, <<"offset", "mv", Milli(d.voff)>>, <<"ua", "ua", Micro(d.ioff)>>,
      <<"vint", "mv", Milli(d.vint)>>>>
    \o (IF d.hasif THEN <<<<"if", "k", d.noise>>>> ELSE <<>>)
DCReportFails(r) ==
    IF r.raised # "" THEN {"report-raised"} ELSE
    LET want == DCLines(r.d) IN
    Clause("report-lines", Len(r.lines) = Len(want) /\ \A k \in 1..Len(want) : {want[k][1], want[k][2]} \subseteq WordSet(r.lines[k].words))
    \cup Clause("report-values", Len(r.lines) = Len(want) => \A k \in 1..Len(want) : Starts(r.lines[k], <<want[k][3]>>))
    \cup Clause("report-title", {"junction", "test"} \subseteq WordSet(r.said))
    \cup Clause("short-form", Exactly([nums |-> r.short], <<Milli(r.d.vgap), r.d.rn>>))
    \cup Clause("silent", r.quiet)

(* --- pumped data: the lines with these words state these values --- *)
LinesWith(lines, ws) == SelectSeq(lines, LAMBDA l : ws \subseteq WordSet(l.words))
Says(lines, ws, vals) == LET s == LinesWith(lines, ws) IN \E k \in 1..Len(s) : Exactly(s[k], vals)
SaysAt(lines, n, ws, vals) == LET s == LinesWith(lines, ws) IN Len(s) >= n /\ Exactly(s[n], vals)
Power(v, z, r, c) == FDiv(FDiv(FDiv(FMul(v, v), c), FMul(Re(z), r)), FDec(1, -9))
PumpedFails(r) ==
    LET L == r.lines
        z == r.z
        db(g) == FMul(FI(10), FDiv(FLog(g), FLog(FI(10))))
        near(lines, n, ws, x) == LET s == LinesWith(lines, ws) IN Len(s) >= n /\ Len(s[n].nums) = 1 /\
                 FLe(FAbs(FSub(s[n].nums[1].x, x)), FAdd(s[n].nums[1].half, FMul(FDec(1, -9), FAbs(x))))
    IN  Clause("says-comment", {"importing", "pumped", "junction"} \subseteq WordSet(r.said))
        \cup Clause("says-frequency", Says(L, {"frequency", "ghz"}, <<r.freq>>))
        \cup (IF ~r.hasif THEN Clause("no-if-report", LinesWith(L, {"noise", "temp"}) = <<>>) ELSE
              Clause("says-if-noise", Says(L, {"if", "noise", "k"}, <<r.if.noise>>))
              \cup Clause("says-noise-temp", Says(L, {"noise", "temp", "k"}, <<r.if.tn>>))
              \cup Clause("says-gain", near(L, 1, {"gain", "db"}, db(r.if.gain))))
        \cup (IF ~r.haszt THEN Clause("no-recovery-report", LinesWith(L, {"recovery"}) = <<>>) ELSE
              Clause("says-source", SaysAt(L, 1, {"voltage", "vgap"}, <<z.vt>>))
              \cup Clause("says-impedance", SaysAt(L, 1, {"impedance", "rn"}, z.zt))
              \cup Clause("says-drive", Says(L, {"drive", "level"}, <<z.alpha>>))
              \cup Clause("says-junction", SaysAt(L, 2, {"impedance", "rn"}, z.zw))
              \cup Clause("says-available", FEq(Re(z.zt), F0) \/ near(L, 1, {"avail", "power", "nw"}, Power(FMul(z.vt, r.vgap), z.zt, r.rn, FI(8))))
              \cup Clause("says-delivered", FEq(Re(z.zw), F0) \/ near(L, 1, {"deliv", "power", "nw"}, Power(FMul(FMul(z.alpha, r.vph), r.vgap), z.zw, r.rn, F2)))
              \cup Clause("says-fit", LinesWith(L, {IF z.good THEN "good" ELSE "bad", "fit"}) # <<>> /\ LinesWith(L, {IF z.good THEN "bad" ELSE "good", "fit"}) = <<>>))

(* --- circuits: a block per tone and harmonic --- *)
(* one of gap voltage and gap frequency gives the other *)
EOVERH == FDiv(FStr("1.602176634e-19"), FStr("6.62607015e-34"))
VGap(r) == IF r.hasv THEN r.vgap ELSE FDiv(r.fgap, EOVERH)
FGap(r) == IF r.hasf THEN r.fgap ELSE FMul(r.vgap, EOVERH)
Block(r, f, p) ==
    LET fr == r.freq[f]
        vt == Re(r.vt[f][p])
        zt == r.zt[f][p]
        pw == FDiv(FDiv(FMul(FMul(vt, VGap(r)), FMul(vt, VGap(r))), FI(8)), FMul(Re(zt), r.rn))
        dbm == FMul(FI(10), FDiv(FLog(FDiv(pw, FDec(1, -3))), FLog(FI(10))))
    IN  IF r.known
        THEN <<<<FI(f), FI(p), Giga(FMul(fr, FGap(r))), FI(p)>>, <<vt>>, <<FDiv(vt, FMul(fr, FI(p)))>>, zt, <<pw>>, <<dbm>>>>
        ELSE <<<<FI(f), FI(p), fr, FI(p)>>, <<vt>>, zt>>
CircuitReportFails(r) ==
    IF r.raised # "" THEN {"report-raised"} ELSE
    LET want == <<<<FI(r.nf), FI(r.np)>>>> \o FlattenSeq([k \in 1..(r.nf * r.np) |-> Block(r, ((k - 1) \div r.np) + 1, ((k - 1) % r.np) + 1)])
    IN  Clause("report-lines", Len(r.lines) = Len(want))
        \cup Clause("report-values", Len(r.lines) = Len(want) => \A k \in 1..Len(want) : Exactly(r.lines[k], want[k]))
        \cup Clause("name", Exactly(r.str, want[1]) /\ WordSet(r.name) \subseteq WordSet(r.str.words))

(* --- harmonic balance --- *)
(* relative error of signal k after a round x: voltages vj, currents ij    *)
RelErr(r, x, k) == [n \in 1..Len(x.vj[k]) |-> FDiv(CAbs(CSub(CSub(r.vt[k], CMul(r.zt[k], x.ij[k][n])), x.vj[k][n])), CAbs(x.vj[k][n]))]
Median(s) == LET t == SortSeq(s, LAMBDA a, b : FLt(a, b))
                 n == Len(s) IN IF n % 2 = 1 THEN t[(n + 1) \div 2] ELSE FDiv(FAdd(t[n \div 2], t[(n \div 2) + 1]), F2)
Near(n, x) == FLe(FAbs(FSub(n.x, x)), FAdd(FMul(F2, n.half), FMul(FDec(1, -3), FAbs(x))))
BalanceFails(r) ==
    IF r.raised # "" THEN {"report-raised"} ELSE
    LET L == r.lines
        nn == r.nf * r.np
        missed == LinesWith(L, {"not", "achieve", "target"})
        met == LinesWith(L, {"minimum", "error", "target", "achieved"})
        table == SelectSeq(L, LAMBDA l : {"f", "p", "med", "max"} \subseteq WordSet(l.words))
        errs == TLCEval([n \in 1..Len(r.rounds) |-> [k \in 1..nn |-> RelErr(r, r.rounds[n], k)]])
        rounds == LinesWith(L, {"error", "after"})
        c == r.check.lines
        err == errs[Len(errs)]
        clear(x) == FLt(FMul(FDec(1, -3), r.stop), FAbs(FSub(x, r.stop)))
    IN  Clause("says-missed", (missed # <<>>) = ~r.ok)
        \cup (IF ~r.verbose THEN Clause("silent", Len(L) = Len(missed)) ELSE
              Clause("says-met", (met # <<>>) = r.ok)
              \cup Clause("says-circuit", Says(L, {"tone", "harmonic"}, <<FI(r.nf), FI(r.np)>>) /\ Says(L, {"max", "iterations"}, <<FI(r.maxit)>>))
              \cup Clause("says-iterations", IF r.it = 0 THEN TRUE ELSE Says(L, {"iterations", "required"}, <<FI(r.it)>>))
              \cup Clause("says-rounds", Len(rounds) = r.it + 1 /\ \A k \in 1..Len(rounds) : Exactly(rounds[k], <<FI(k - 1)>>))
              \cup Clause("error-table", Len(table) = nn * (r.it + 1) /\ \A n \in 1..(r.it + 1) : \A k \in 1..nn :
                     LET l == table[(n - 1) * nn + k].nums
                         e == errs[n][k] IN
                     /\ Len(l) = 5 /\ Rounds(l[1], FI(((k - 1) \div r.np) + 1)) /\ Rounds(l[2], FI(((k - 1) % r.np) + 1))
                     /\ (FLt(Median(e), FDec(99999, 0)) => Near(l[3], Median(e)))
                     /\ (FLt(FMaxSeq(e), FDec(99999, 0)) => Near(l[4], FMaxSeq(e)))
                     /\ ((\A i \in 1..Len(e) : clear(e[i])) =>
                            Rounds(l[5], FDiv(FI(100 * Cardinality({i \in 1..Len(e) : FLt(e[i], r.stop)})), FI(Len(e)))))))
        \cup Clause("double-check", (\A k \in 1..nn : clear(FMaxSeq(err[k]))) =>
                LET bad == {k \in 1..nn : FLt(r.stop, FMaxSeq(err[k]))}
                    upto == IF bad = {} THEN nn ELSE CHOOSE k \in bad : \A m \in bad : k <= m
                IN  /\ (r.check.raised = "") = (bad = {})
                    /\ Len(c) = upto
                    /\ \A k \in 1..upto : Len(c[k].nums) = 3 /\ Near(c[k].nums[3], FMaxSeq(err[k]))
                          /\ (IF k \in bad THEN "no" ELSE "yes") \in WordSet(c[k].words))

(* --- warnings while importing --- *)
WarningFails(r) ==
    IF r.raised # "" THEN {"report-raised"} ELSE
    LET warned(w) == LinesWith(r.lines, {"warning", "normal", "resistance", w}) # <<>> IN
    Clause("warns-low", warned("low") = FLt(r.rn, F1)) \cup Clause("warns-high", warned("high") = FLt(FI(50), r.rn))
ShotFails(r) ==
    IF r.raised # "" THEN {"report-raised"} ELSE
    Clause("says-fit-failed", (LinesWith(r.lines, {"shot", "noise", "fit", "failed"}) # <<>>) = (r.k < 5))

(* --- response functions: how well the interpolation follows the curves,  *)
(* over the voltages that are not at the very ends                         *)
RespReportFails(r) ==
    IF r.raised # "" THEN {"report-raised"} ELSE
    IF ~r.verbose THEN Clause("silent", r.lines = <<>>) ELSE
    LET K == TLCEval({n \in 1..Len(r.v) : FLt(FAbs(r.v[n]), FI(34))})
        L == r.lines
        err(c, f) == TLCEval([n \in 1..Len(r.v) |-> IF n \in K THEN FAbs(FSub(c[n], f[n])) ELSE F0])
        part(c, f, which) ==
            LET e == err(c, f)
                big == FMaxSeq(e)
                mean == FDiv(FSum(e), FI(Cardinality(K)))
                hit == {n \in K : FLe(e[n], FDec(1, -12))}
                npts == LinesWith(L, {"npts", which})
                avg == LinesWith(L, {"avg", "error"})
                mx == LinesWith(L, {"max", "error"})
                at == IF which = "dc" THEN 1 ELSE 2
            IN  Clause("says-points", Len(npts) = 1 /\ Len(npts[1].nums) = 1 /\ FLe(npts[1].nums[1].x, FI(Cardinality(hit) + Len(r.v) - Cardinality(K))) /\ FLe(F1, npts[1].nums[1].x))
                \cup Clause("says-average-error", Len(avg) = 2 /\ Len(avg[at].nums) = 1 /\ Near(avg[at].nums[1], mean))
                \cup Clause("says-largest-error", Len(mx) = 2 /\ Len(mx[at].nums) = 2 /\ Rounds(mx[at].nums[1], big))
                \cup Clause("says-where", Len(mx) = 2 /\ Len(mx[at].nums) = 2
                        /\ \E n \in K : Rounds(mx[at].nums[2], r.v[n]) /\ FLe(FAbs(FSub(e[n], big)), FAdd(FDec(1, -12), FMul(FDec(1, -6), big))))
    IN  part(r.i, r.fi, "dc") \cup part(r.k, r.fk, "kk")
        \cup Clause("says-smear", IF r.smear THEN Says(L, {"voltage", "smear"}, <<r.sigma>>) ELSE LinesWith(L, {"smear"}) = <<>>)

CurrentReportFails(r) ==
    IF r.raised # "" THEN {"report-raised"} ELSE
    IF ~r.verbose THEN Clause("silent", r.lines = <<>>) ELSE
    Clause("says-circuit", Says(r.lines, {"tone"}, <<FI(r.nf)>>) /\ Says(r.lines, {"harmonic"}, <<FI(r.np)>>))

(* --- the terminal helpers --- *)
Code(c) ==
    CASE c = "CYAN" -> 36 [] c = "MAGENTA" -> 35 [] c = "PINK" -> 95 [] c = "BLUE" -> 94 [] c = "GREEN" -> 92 [] c = "YELLOW" -> 93 [] c = "RED" -> 91
      [] c \in {"HEADER", "HEADER1"} -> 95 [] c = "HEADER2" -> 36 [] c = "HEADER3" -> 92 [] c = "OKBLUE" -> 94 [] c = "OKGREEN" -> 92
      [] c = "WARNING" -> 93 [] c = "FAIL" -> 91 [] c = "BOLD" -> 1 [] c = "UNDERLINE" -> 4 [] c = "INVERSE" -> 7 [] c = "BLINK" -> 5
      [] OTHER -> -1
Painted(r) == Clause("color", IF r.color = "" THEN r.code = -1 ELSE r.code = Code(r.color) /\ r.end = 0)
TerminalFails(r) ==
    IF r.raised # "" THEN {"report-raised"} ELSE
    CASE r.kind = "cprint" -> IF r.bad THEN Clause("unknown-color", r.got = r.text /\ r.listed = r.known)
                              ELSE Painted(r) \cup Clause("text", r.got = r.text)
      [] r.kind \in {"pvalf", "pvale"} ->
            Painted(r) \cup Clause("text", r.name = "quantity" /\ r.gotunits = r.units /\ r.gotcomment = r.comment)
            \cup Clause("value", Exactly(r, IF r.complex THEN r.val ELSE <<r.val[1]>>))
      [] r.kind = "title" -> Painted(r) \cup Clause("title", r.got = r.title /\ r.len = r.want /\ r.left - r.right \in {-1, 0, 1})
      [] r.kind = "header" -> Clause("text", r.has)
      [] r.kind = "printc" -> Clause("value", Exactly(r, r.val))
      [] r.kind = "bar" -> Clause("bar", r.parsed) \cup (IF ~r.parsed THEN {} ELSE
            Clause("bar-text", r.got.prefix = r.prefix /\ r.got.suffix = r.suffix)
            \cup Clause("bar-filled", r.got.solid /\ r.got.length = r.length
                    /\ r.got.filled = FToInt(FRoundHalfEven(FDiv(FI(r.length * r.it), FI(r.n)))))
            \cup Clause("bar-percent", FLe(FAbs(FSub(r.got.pct, FMul(FI(100), FDiv(FI(r.it), FI(r.n))))), FMul(FStr("0.5000001"), FDec(1, -r.decimals))))
            \cup Clause("bar-end", r.got.newline = (r.it = r.n)))
      [] OTHER -> {"unknown-kind"}

VRFails(r) ==
    CASE r.op = "dcreport" -> DCReportFails(r)
      [] r.op = "pumpedreport" -> PumpedFails(r)
      [] r.op = "circuitreport" -> CircuitReportFails(r)
      [] r.op = "balancereport" -> BalanceFails(r)
      [] r.op = "warningreport" -> WarningFails(r)
      [] r.op = "shotreport" -> ShotFails(r)
      [] r.op = "respreport" -> RespReportFails(r)
      [] r.op = "currentreport" -> CurrentReportFails(r)
      [] r.op = "terminal" -> TerminalFails(r)
      [] OTHER -> {"unknown-op"}
=============================================================================
