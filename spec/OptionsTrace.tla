---------------------------- MODULE OptionsTrace ----------------------------
(***************************************************************************)
(* Judges recorded calls with different options given (O01).  A record has *)
(* the calls of one kind on the same inputs: the options given, and the    *)
(* result as a sequence of numbers.                                        *)
(***************************************************************************)
EXTENDS OptionTable, Rec, Verdict
Given(c) == Call({<<p[1], p[2]>> : p \in {c.given[j] : j \in 1..Len(c.given)}})
(* two sequences of sequences of numbers *)
Like(s, t) == Len(s) = Len(t) /\
    LET m == IF Len(t) = 0 THEN F0 ELSE FMaxSeq([k \in 1..Len(t) |-> IF FLt(FAbs(t[k]), FDec(1, 90)) THEN FAbs(t[k]) ELSE F0])
    IN  \A k \in 1..Len(s) : FClose(s[k], t[k], FDec(1, -9), FMul(FDec(1, -11), m))
Alike(s, t) == s = t \/ (Len(s) = Len(t) /\ \A j \in 1..Len(s) : Like(s[j], t[j]))
SameOut(a, b) == IF a.ok /\ b.ok THEN Alike(a.res, b.res) ELSE a.ok = b.ok

RECURSIVE Listed(_)
Listed(g) == IF DOMAIN g = {} THEN "" ELSE LET o == CHOOSE x \in DOMAIN g : TRUE IN o \o "=" \o g[o] \o " " \o Listed([x \in DOMAIN g \ {o} |-> g[x]])

OptionsFails(r) ==
    LET n == Len(r.calls)
        given == TLCEval([j \in 1..n |-> TLCEval(Given(r.calls[j]))])
        means == TLCEval([j \in 1..n |-> TLCEval(Completed(r.kind, given[j]))])
        First(j) == CHOOSE i \in 1..j : means[i] = means[j] /\ \A h \in 1..(i - 1) : means[h] # means[j]
        Of(g) == CHOOSE j \in 1..n : given[j] = g
    IN  IF \E g \in Required(r.kind) : \A j \in 1..n : given[j] # g THEN {"not-all-calls-made"} ELSE
        Clause("fails-with-defaults", r.calls[Of(Call({}))].ok)
        \cup UNION {Clause("means-something-else: " \o Listed(given[j]) \o (IF r.calls[j].placed > 0 THEN "by place " ELSE "")
                           \o "vs " \o Listed(given[First(j)]), SameOut(r.calls[j], r.calls[First(j)])) : j \in 1..n}
        \cup UNION {Clause("no-effect: " \o Listed(d[2]), ~SameOut(r.calls[Of(d[1])], r.calls[Of(d[2])])) : d \in Differ(r.kind)}

OPFails(r) == CASE r.op = "options" /\ r.kind \in DOMAIN Table -> OptionsFails(r)
                [] OTHER -> {"unknown-op"}
=============================================================================
