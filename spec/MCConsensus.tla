----------------------------- MODULE MCConsensus -----------------------------
(* The rules over every height (in steps of a week less one block) and every length of the window: versions
   and the secondary share move one way, a window's difficulty at most halves or doubles, never falls below
   its minimum, and stays where it is when blocks come on time. *)
EXTENDS Consensus
CONSTANTS MAXH, MAXD, FULL
VARIABLES h, d
Steady(dt, diff) == [i \in 1..62 |-> <<(62 - i) * dt, WMulS(diff, 63 - i), 1000, i % 10 # 0>>]
Init == h = 0 /\ d = 1
Next == \/ h < MAXH /\ (FULL \/ d \in {1, 60, 200}) /\ h' = h + 10079 /\ UNCHANGED d
        \/ d < MAXD /\ h = 0 /\ d' = d + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, d>>
Versions == [][\A e \in {"MAINNET", "FLOONET"} : Version(e, h') - Version(e, h) \in {0, 1}]_<<h, d>>
Shares == [][SecondaryRatio(h') <= SecondaryRatio(h) /\ GraphWeight(h', 31) <= GraphWeight(h, 31) /\ GraphWeight(h', 32) = GraphWeight(h, 32)]_h
Bounded == \A diff \in {WInt(3), WInt(1000), <<1, 2, 3, 4, 5>>} :
    LET n == NextDMA(h, Steady(d, diff))  m == NextWTEMA("MAINNET", SubSeq(Steady(d, diff), 1, 3))
    IN /\ WLe(WInt(3), n.diff) /\ WLe(n.diff, WMulS(diff, 2)) /\ WLe(WDivS(diff, 2), n.diff) /\ n.scal >= 13
       /\ (d = 60 => n.diff = diff)
       /\ WLe(WInt(16384), m.diff) /\ (WLe(WInt(16384), diff) /\ d >= 60 => WLe(m.diff, diff)) /\ (WLe(WInt(20000), diff) /\ d < 60 => WLt(diff, m.diff))
=============================================================================
