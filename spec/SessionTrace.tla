---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Judges recorded sessions (S01).  A record has the steps of one session: *)
(* the call, its result as a sequence of numbers, and a digest of every    *)
(* object after it; and ref: "call@version of c2" -> the result of that    *)
(* call made alone in a new process.                                       *)
(***************************************************************************)
EXTENDS Session, Rec, Verdict
Ref(r, k, v) == r.ref[k \o "@" \o v]
Alike(s, t) == Len(s) = Len(t) /\
    LET m == IF Len(t) = 0 THEN F0 ELSE FMaxSeq([k \in 1..Len(t) |-> IF FLt(FAbs(t[k]), FDec(1, 90)) THEN FAbs(t[k]) ELSE F0])
    IN  \A k \in 1..Len(s) : FClose(s[k], t[k], FDec(1, -9), FMul(FDec(1, -11), m))

(* walk through the session: version of every object, digest expected of   *)
(* every version seen                                                      *)
RECURSIVE Walk(_, _, _, _)
Walk(r, k, ver, seen) ==
    IF k > Len(r.steps) THEN {} ELSE
    LET s == r.steps[k]
        f == Ref(r, s.call, IF "c2" \in Reads(s.call) THEN ver["c2"] ELSE "new")
        to == After(ver, s.call)
        bad == (IF ~f.ok THEN {} ELSE
                Clause("call-fails-in-session: " \o s.call, s.ok)
                \cup Clause("result-depends-on-history: " \o s.call, s.ok => Alike(s.res, f.res)))
               \cup UNION {Clause("changed: " \o x \o " by " \o s.call,
                            LET v == <<x, to[x]>> IN v \in DOMAIN seen => seen[v] = s.h[x]) : x \in Objects}
        now == [v \in DOMAIN seen \cup {<<x, to[x]>> : x \in Objects} |->
                   IF v \in DOMAIN seen THEN seen[v] ELSE s.h[v[1]]]
    IN  bad \cup (IF bad # {} THEN {} ELSE Walk(r, k + 1, to, TLCEval(now)))

SessionFails(r) ==
    IF Len(r.steps) = 0 \/ r.steps[1].call # "start" THEN {"no-start"}
    ELSE Walk(r, 2, Fresh, TLCEval([v \in {<<x, "new">> : x \in Objects} |-> r.steps[1].h[v[1]]]))

STFails(r) == CASE r.op = "session" -> SessionFails(r)
                [] OTHER -> {"unknown-op"}
=============================================================================
