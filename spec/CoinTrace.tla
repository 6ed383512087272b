----------------------------- MODULE CoinTrace -----------------------------
EXTENDS Wallet, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Ran(s) == {s[k] : k \in DOMAIN s}
Purse == [i \in DOMAIN E.coins |-> [amt |-> E.coins[i]]]
TSelect == E.e = "Select" /\ LET ins == Ran(E.ins) IN
    IF E.r THEN /\ Ok("coins of the purse, each once, and at least one", ins # {} /\ ins \subseteq DOMAIN E.coins /\ Len(E.ins) = Cardinality(ins))
                /\ Ok("covers", Covers(Purse, ins, E.amt, E.base, E.outs))
                /\ Ok("selected", Chosen(Purse, DOMAIN E.coins, E.strat, Ran(E.want), E.amt, E.base, E.outs, ins))
    ELSE Ok("refused", Chosen(Purse, DOMAIN E.coins, E.strat, Ran(E.want), E.amt, E.base, E.outs, {}))
TStart == E.e = "Start" /\ E.maturity = Maturity
TInit == l = 1
TNext == l <= Len(Log) /\ (TStart \/ TSelect) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
