----------------------------- MODULE YFactor_MC -----------------------------
(***************************************************************************)
(* A measurement session on a sweep of bias points, each a receiver with   *)
(* a gain and a noise temperature (0 gain: dead point), in an arbitrary    *)
(* power unit: calibrate by the shot-noise slope, measure hot and cold in  *)
(* either order, derive, choose the best point.  Exact rationals.          *)
(*  - the derived noise and gain are the receiver's,                       *)
(*  - nothing derived depends on the power unit or the order,              *)
(*  - dead points have no noise temperature (the ratio is one) and are     *)
(*    never the best by noise,                                             *)
(*  - the best point by gain / noise / voltage is best for the receiver.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Points, Gains, Noises, Colds, Hots, Scales

(* rationals <<numerator, denominator>>, denominator > 0 *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
RNorm(a) == LET g == GCD(Abs(a[1]), Abs(a[2]))  s == IF a[2] < 0 THEN -1 ELSE 1
            IN  IF g = 0 THEN a ELSE <<s * (a[1] \div g), s * (a[2] \div g)>>
RSub(a, b) == RNorm(<<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>)
RMul(a, b) == RNorm(<<a[1] * b[1], a[2] * b[2]>>)
RDiv(a, b) == RNorm(<<a[1] * b[2], a[2] * b[1]>>)
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RI(n) == <<n, 1>>
Y == INSTANCE YFactor WITH Sub <- RSub, Mul <- RMul, Div <- RDiv, One <- RI(1)

VARIABLES receiver, loads, scale, stage, hot, cold, corr
vars == <<receiver, loads, scale, stage, hot, cold, corr>>
Init == /\ receiver \in [1..Points -> [g : Gains, t : Noises]]
        /\ loads \in {[cold |-> c, hot |-> h] : c \in Colds, h \in Hots} /\ loads.cold < loads.hot
        /\ scale \in Scales
        /\ stage = "raw" /\ hot = <<>> /\ cold = <<>> /\ corr = <<0, 1>>
Rate == 58                                     \* kelvin per unit of bias above the gap
Calibrate == stage = "raw" /\ corr' = Y!Calibration(RI(Rate), RI(Rate * scale)) /\ stage' = "calibrated"
             /\ UNCHANGED <<receiver, loads, scale, hot, cold>>
Power(load) == [k \in 1..Points |-> RMul(corr, RI(scale * receiver[k].g * (load + receiver[k].t)))]
Hot == stage = "calibrated" /\ hot = <<>> /\ hot' = Power(loads.hot) /\ UNCHANGED <<receiver, loads, scale, stage, cold, corr>>
Cold == stage = "calibrated" /\ cold = <<>> /\ cold' = Power(loads.cold) /\ UNCHANGED <<receiver, loads, scale, stage, hot, corr>>
Derive == stage = "calibrated" /\ hot # <<>> /\ cold # <<>> /\ stage' = "derived" /\ UNCHANGED <<receiver, loads, scale, hot, cold, corr>>
Next == Calibrate \/ Hot \/ Cold \/ Derive
Spec == Init /\ [][Next]_vars

Live(k) == receiver[k].g # 0
Th == RI(loads.hot)
Tc == RI(loads.cold)
Noise(k) == Y!Noise(Th, Tc, Y!Ratio(hot[k], cold[k]))
Gain(k) == Y!Gain(hot[k], cold[k], Th, Tc)
Usable(k) == cold[k][1] # 0 /\ RLt(RI(1), Y!Ratio(hot[k], cold[k]))
Derived == stage = "derived"
NoiseIsReceivers == Derived => \A k \in 1..Points : Live(k) => Usable(k) /\ REq(Noise(k), RI(receiver[k].t))
GainIsReceivers == Derived => \A k \in 1..Points : REq(Gain(k), RI(receiver[k].g))
DeadIsUnusable == Derived => \A k \in 1..Points : ~Live(k) => ~Usable(k) /\ REq(Gain(k), RI(0))
UnitFree == Derived => \A k \in 1..Points : REq(hot[k], RI(receiver[k].g * (loads.hot + receiver[k].t)))
BestByGain == Derived => \A b \in 1..Points :
    Y!IsBest([k \in 1..Points |-> Gain(k)], b, LAMBDA p, q : RLt(q, p)) <=> \A k \in 1..Points : receiver[k].g <= receiver[b].g
BestByNoise == Derived /\ (\A k \in 1..Points : Live(k)) => \A b \in 1..Points :
    Y!IsBest([k \in 1..Points |-> Noise(k)], b, LAMBDA p, q : RLt(p, q)) <=> \A k \in 1..Points : receiver[b].t <= receiver[k].t
(* swapping the two measurements shows: the ratio is below one             *)
SwapShows == Derived => \A k \in 1..Points : Live(k) => RLt(Y!Ratio(cold[k], hot[k]), RI(1))
=============================================================================
