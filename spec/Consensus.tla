------------------------------ MODULE Consensus ------------------------------
(* The published rules a header's numbers have to follow: versions, difficulty, secondary scaling,
   graph weights, how much work a proof shows, weights and fees. *)
EXTENDS Wide, SequencesExt, FiniteSets
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b

WEEK == 10080   YEAR == 52 * WEEK   HALF == YEAR \div 2
Forks(env) == IF env = "FLOONET" THEN <<185040, 298080, 552960, 642240>> ELSE <<HALF, 2 * HALF, 3 * HALF, 4 * HALF>>
Version(env, h) == 1 + Cardinality({i \in 1..4 : h >= Forks(env)[i]})
Horizon(h) == Most(h - WEEK, 0)
Maturity(env) == IF env = "AUTOMATED_TESTING" THEN 25 ELSE 1440
MaxCoinbase(env, h) == Most(h - Maturity(env), 0)
SecondaryRatio(h) == 90 - Least(90, h \div ((2 * YEAR) \div 90))
GraphWeight(h, eb) == 2^(1 + eb - 24) * (IF eb = 31 /\ h >= YEAR THEN eb - Least(eb, 1 + (h - YEAR) \div WEEK) ELSE eb)
WeightV4(i, o, k) == Most(4 * o + k - i, 1)
WeightV5(i, o, k) == i + 21 * o + 3 * k

Damp(actual, goal, f) == (actual + (f - 1) * goal) \div f
Clamp(actual, goal, f) == Most(goal \div f, Least(actual, goal * f))

(* The headers before the one to judge, latest first: <<time, total difficulty, scaling, secondary>>. *)
WINDOW == 60
Blocks(prev) == [i \in 1..Least(Len(prev), WINDOW + 1) |->
    [ts |-> prev[i][1], diff |-> IF i < Len(prev) THEN WSub(prev[i][2], prev[i + 1][2]) ELSE prev[i][2], scal |-> prev[i][3], sec |-> prev[i][4]]]
Padded(prev) ==
    LET b == Blocks(prev)   step == IF Len(b) > 1 THEN b[1].ts - b[2].ts ELSE 60
    IN b \o [i \in 1..(WINDOW + 1 - Len(b)) |-> [ts |-> b[Len(b)].ts - i * step, diff |-> b[1].diff, scal |-> 1856, sec |-> TRUE]]
AdjustedTime(delta) == Clamp(Damp(delta, 3600, 3), 3600, 2)
NextDMA(h, prev) ==
    LET w == Padded(prev)
        sum == FoldLeft(LAMBDA a, x : WAdd(a, x.diff), <<>>, SubSeq(w, 1, WINDOW))
        scales == FoldLeft(LAMBDA a, x : a + x.scal, 0, SubSeq(w, 1, WINDOW))
        secs == FoldLeft(LAMBDA a, x : a + (IF x.sec THEN 100 ELSE 0), 0, SubSeq(w, 1, WINDOW))
        pct == SecondaryRatio(h)   goal == WINDOW * pct
        count == Clamp(Damp(secs, goal, 13), goal, 2)
    IN [diff |-> WMax(WInt(3), WDivS(WMulS(sum, 60), AdjustedTime(w[1].ts - w[WINDOW + 1].ts))),
        scal |-> Most(13, (scales * pct) \div Most(1, count))]
MinWtema(env) == IF env = "MAINNET" THEN 16384 ELSE 1856
NextWTEMA(env, prev) ==
    [diff |-> WMax(WInt(MinWtema(env)), WDivS(WMulS(WSub(prev[1][2], prev[2][2]), 14400), 14340 + prev[1][1] - prev[2][1])), scal |-> 0]
Prescribed(env, h, version, prev) == IF version < 5 THEN NextDMA(h, prev) ELSE NextWTEMA(env, prev)

(* A proof over a graph of 2^eb edges whose hash begins with the number x shows work of weight * 2^64 / x. *)
Weight(h, eb, scal) == IF eb = 29 THEN scal ELSE GraphWeight(h, eb)
Shows(h, eb, scal, x, target) == WLe(WMul(target, WMax(WInt(1), x)), WMul(WInt(Weight(h, eb, scal)), Two64))
Primary(eb) == eb >= 31
Secondary(eb) == eb = 29
Algorithm(eb, version) == IF eb # 29 THEN "cuckatoo" ELSE <<"cuckaroo", "cuckarood", "cuckaroom", "cuckarooz", "none">>[version]
(* x: a header, n: what the network prescribes for it, now: the clock. *)
Adequate(x, n) ==
    /\ Primary(x.eb) \/ Secondary(x.eb)
    /\ WLt(x.prev[1][2], x.td)
    /\ \E t \in {WSub(x.td, x.prev[1][2])} : t = n.diff /\ Shows(x.h, x.eb, x.scal, x.x, t)
    /\ x.scal = n.scal
    /\ Algorithm(x.eb, x.ver) \in {x.cycles[i] : i \in DOMAIN x.cycles}
ValidHeader(env, x, n) == x.linked /\ x.ver = Version(env, x.h) /\ x.ts <= x.now + 300 /\ x.ts > x.prev[1][1] /\ Adequate(x, n)
=============================================================================
